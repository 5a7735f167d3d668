package main

import "strings"

// C04: white space and comments. Programs are written as token lists; a separator is inserted at one boundary (or at
// every boundary) and both implementations must agree on the meaning.

var zvTokProgs = []string{
	"f ( a , b ) { auto x , v [ 3 ] , w ; extrn g , h ; x = a + b ; v [ 1 ] = x ; g = v [ 1 ] - 2 ; return ( v [ 1 ] * g ) ; } g 5 ; h ;",
	"f ( a ) { if ( a > 1 ) return ( 2 ) ; else if ( a ) { a = 7 ; } else a = 8 ; return ( a ) ; }",
	"f ( a ) { auto i ; i = 3 ; while ( i > 0 ) { a =+ i ; i -- ; } return ( a ) ; }",
	"f ( a ) { switch ( a ) { case 1 : a = 10 ; case 'x' : a = a + 1 ; goto out ; case 007 : ; } a =<< 1 ; out : return ( a ) ; }",
	"f ( a , b ) { return ( a ? b : - a ) ; }",
	"f ( a ) { auto p ; p = & a ; * p =* 3 ; return ( ! a == a ++ + 0 ) ; }",
	"v [ 3 ] 1 , - 2 , 'a' ; s \"str\" , 4 ; e [ ] ; u [ 2 ] ; f ( ) { extrn v , s , e , u ; x ( v , s ) ; e [ 0 ] = 2 ; u [ 1 ] = v [ 1 ] ; return ; }",
	"f ( a ) { x ( ) ; y ( a , 1 , z ( 2 ) ) ; return ( g ( a ) ) ; } g ( b ) return ( b + 1 ) ; k ( ) ;",
	"f ( a , b ) { return ( ( a << 2 ) + ( b >> 1 ) | ( a & b ) == ( a <= b ) != ( a >= b ) ) ; }",
	"f ( a ) { l : m : a = a % 7 ; ; { { } } a =- 1 ; a =| 4 ; a =& 7 ; a =< 3 ; a === 0 ; a =!= 1 ; return ( -- a ) ; }",
	"f ( a , b ) { auto p , q ; p = & a ; q = & p ; b = - - a - - b ; a = a - - - * * q + ! ! b ; return ( a & * p | - ! b < - 1 ) ; }",
	"f ( a , b ) { auto x ; x = a -- - - b ; x = x ++ + - -- b - ++ a ; x = & a == & b ; return ( x * - a / ( - 3 ) % - 5 - - 1 ) ; }",
	"f ( a ) { auto t [ 'a' ] , u [ ] ; t [ 0 ] = u [ 0 ] = a ; return ( t [ 0 ] ) ; }",
}

// zvTight joins tokens with a separator only between two words.
func zvTight(toks []string, at int, sep []byte) []byte {
	var out []byte
	for i, t := range toks {
		if i > 0 {
			if i == at {
				out = append(out, sep...)
			} else {
				a, b := toks[i-1], t
				la, fb := a[len(a)-1], b[0]
				need := zvIsWord(la) && zvIsWord(fb)
				// a blank keeps two operators apart
				if strings.IndexByte("=+-!<>&*/|", la) >= 0 && strings.IndexByte("=+-!<>&*/|%", fb) >= 0 {
					need = true
				}
				if need {
					out = append(out, ' ')
				}
			}
		}
		out = append(out, t...)
	}
	return out
}

func zvTokens() []string {
	p := zvTokProgs[vChoice("program", len(zvTokProgs))]
	return strings.Fields(p)
}

func zvNArgs(toks []string) int {
	// the parameters of f
	for i := range toks {
		if toks[i] == "f" && toks[i+1] == "(" {
			n := 0
			for i += 2; toks[i] != ")"; i++ {
				if toks[i] != "," {
					n++
				}
			}
			return n
		}
	}
	return 0
}

// One white space byte at one boundary.
func zvH_C04_blank() {
	toks := zvTokens()
	at := vChoice("at", len(toks)+1)
	b := zvBytes("ws", 1)
	vAssume(zvIsSpace(b[0]))
	src := zvTight(toks, at, b)
	if at == 0 {
		src = zvCat(b, src)
	} else if at == len(toks) {
		src = zvCat(src, b)
	}
	zvDiff(src, zvOpt{args: zvFix(zvNArgs(toks)), steps: 120})
}

// zvFix gives concrete arguments: the interest is in the text.
func zvFix(n int) []int64 { return []int64{120, 3, 5}[:n] }

// A comment with arbitrary text at one boundary.
func zvH_C04_comment() {
	toks := zvTokens()
	at := 1 + vChoice("at", len(toks)-1)
	sep := zvCat("/*", zvBytes("c", 1), "*/")
	if la := toks[at-1]; strings.IndexByte("=", la[len(la)-1]) >= 0 || la == "/" || la == "<" || la == ">" || la == "&" || la == "-" || la == "+" || la == "*" {
		sep = zvCat(" ", sep) // =/ is an operator of its own
	}
	zvDiff(zvTight(toks, at, sep), zvOpt{args: zvFix(zvNArgs(toks)), steps: 120, mayFail: true})
}

// The text of comments: any bytes.
func zvH_C04_text() {
	n := vChoice("len", 5)
	c := zvBytes("c", n)
	switch vChoice("where", 3) {
	case 0:
		zvDiff(zvCat("/*", c, "*/f(){return(1);}"), zvOpt{steps: 20, mayFail: true})
	case 1:
		zvDiff(zvCat("f(){x(1)/*", c, "*/;return(2)/**/;}"), zvOpt{steps: 20, mayFail: true})
	case 2:
		zvDiff(zvCat("f(a){return(1+/*", c, "*/a);}"), zvOpt{args: zvFix(1), steps: 20, mayFail: true})
	}
}

// Comments that are never closed.
func zvH_C04_unclosed() {
	c := zvBytes("c", vChoice("len", 4))
	for i := range c {
		vAssume(c[i] != '/')
	}
	zvDiff(zvCat(zvPick("before", "", "f", "f(", "f(){", "f(){return(1);", "f(){return(1);}", "g", "g 1", "v[", "v[1]"), "/*", c), zvOpt{mayFail: true})
}

// Separators at every boundary at once: one white space byte each, one kind of comment, or both.
func zvH_C04_all() {
	toks := zvTokens()
	var out []byte
	kind := vChoice("kind", 3)
	for i, t := range toks {
		if i > 0 {
			switch kind {
			case 0:
				b := zvBytes("ws", 1)
				vAssume(zvIsSpace(b[0]))
				out = append(out, b...)
			case 1:
				out = append(out, " /* * / */"...)
			case 2:
				out = append(out, "\n/**/\t"...)
			}
		}
		out = append(out, t...)
	}
	zvDiff(out, zvOpt{args: zvFix(zvNArgs(toks)), steps: 120})
}

// Two arbitrary bytes at a boundary.
func zvH_C04_T_two() {
	toks := zvTokens()
	at := 1 + vChoice("at", len(toks)-1)
	zvDiff(zvTight(toks, at, zvBytes("b", 2)), zvOpt{args: zvFix(zvNArgs(toks)), steps: 120, mayFail: true})
}

func zvH_C04_T_comment() {
	toks := zvTokens()
	at := 1 + vChoice("at", len(toks)-1)
	zvDiff(zvTight(toks, at, zvCat(" /*", zvBytes("c", 3), "*/")), zvOpt{args: zvFix(zvNArgs(toks)), steps: 120, mayFail: true})
}
