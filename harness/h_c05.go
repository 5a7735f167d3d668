package main

import "strings"

// C05: malformed source is rejected, never a crash or a hang. Any path that panics or does not end within the
// instruction budget is reported by the engine; zvDiff reports acceptance of a text the reference rejects (and the
// other way round).

var zvProgs = []string{
	"f(a,b){auto x,v[3];extrn g;x=a+b;v[1]=x;g=v[1]-2;return(v[1]*g);}g 5;",
	"f(a){if(a>1)return(2);else if(a){a=7;}else a=8;while(a<9)a++;return(a);}",
	"f(a){switch(a){case 1:a=10;case 'x':a=a+1;goto o;case 007:;}a=<<1;o:return(a?1:-a);}",
	"v[3]1,-2,'a*n';s \"s*t\",4;e[];/* c */f(){extrn v;return(x(v,s(),\"lit\"));}",
	"f(a){auto p;p= &a;*p=*3;p[0]=!a;--a;a=!=1;return((a|6)&~1);}",
	"main(){printf(\"%d*n\",f(1,2)<=3);}",
	"f(a){l:if(a<7){a++;goto l;}{h(a);}while(a){if(a)return;a--;}}",
	"f(a,b){auto v['a'],x,w[];{extrn g,h;g(a);auto z[2];z[1]=a--;;}return((a)>=b?*x:h(&z[b]));}",
	"f(a){switch a{case '*n':{return;}case 8:if(a){}else{goto m;}m:}return(a%2==a&3);}g 1,-2;",
}

func zvMal(src []byte, n int) { zvDiff(src, zvOpt{args: zvFix(n), steps: 60, mayFail: true}) }

func zvH_C05_top() { zvMal(zvBytes("b", vChoice("len", 4)), 0) }

func zvH_C05_top2() {
	pre := zvPick("before", "f", "f(", "f()", "f(a", "f(a,", "v[", "v[1", "v[1]", "v[1]2", "v[1]2,", "g 1", "g 1,", "g -", "g '", "g \"", "/*", "g;", "f(){}", "f();", "v[] ")
	zvMal(zvCat(pre, zvBytes("b", 1+vChoice("len", 2))), 0)
}

// A statement.
func zvH_C05_stmt() {
	n := 1 + vChoice("len", 2)
	zvMal(zvCat("f(a){", zvBytes("b", n), zvPick("end", "}", ";}", "")), 1)
}

// An expression.
func zvH_C05_expr() {
	n := vChoice("len", 3)
	zvMal(zvCat("f(a){return(", zvBytes("b", n), zvPick("end", ");}", ")", "")), 1)
}

// After the start of every kind of construct.
func zvH_C05_in() {
	pre := zvPick("before", "a", "a=", "a[", "a[0]", "a(", "a(1", "a(1,", "&", "*", "-", "!", "++", "--", "a++", "a+", "a=+", "a<", "a<<", "a==", "a?", "a?1", "a?1:",
		"if", "if(", "if(a", "if(a)", "if(a);", "if(a);else", "while", "while(", "while(a", "while(a)", "switch", "switch(", "switch(a", "switch(a)", "switch(a){", "switch(a){case", "switch(a){case ", "switch(a){case 1", "switch(a){case 1:", "switch(a){case '",
		"goto", "goto ", "goto l", "l", "l:", "return", "return(", "return(a", "return(a)", "auto", "auto ", "auto x", "auto x,", "auto x[", "auto x[1", "auto x[1]", "extrn", "extrn ", "extrn x", "extrn x,", "{", "}", ";", "(", "1", "'", "\"", "/*")
	zvMal(zvCat("f(a){", pre, zvBytes("b", 1), zvPick("end", "}", ";}", "")), 1)
}

// Every prefix of a program.
func zvH_C05_prefix() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("cut", len(p)+1)
	zvMal([]byte(p[:k]), 2)
}

// One byte replaced by any other.
func zvH_C05_replace() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("at", len(p))
	zvMal(zvCat(p[:k], zvBytes("b", 1), p[k+1:]), 2)
}

// One byte inserted.
func zvH_C05_insert() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("at", len(p)+1)
	zvMal(zvCat(p[:k], zvBytes("b", 1), p[k:]), 2)
}

// One, two or three bytes removed.
func zvH_C05_delete() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("at", len(p))
	n := 1 + vChoice("n", 3)
	if k+n > len(p) {
		n = len(p) - k
	}
	zvMal([]byte(p[:k]+p[k+n:]), 2)
}

// Cut anywhere, then one arbitrary byte.
func zvH_C05_cut() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("cut", len(p)+1)
	zvMal(zvCat(p[:k], zvBytes("b", 1)), 2)
}

// Deep nesting ends.
func zvH_C05_deep() {
	n := []int{1, 2, 10, 60}[vChoice("n", 4)]
	open := zvPick("open", "(", "{", "-", "!", "*", "a[", "a(", "if(a)", "while(0)", "switch(a)", "a?", "a=")
	end := map[string]string{"(": ")", "{": "}", "a[": "]", "a(": ")"}[open]
	m := n
	if vChoice("short", 2) == 1 {
		m--
	}
	tail := ";"
	if open == "{" {
		tail = ""
	}
	if open == "a?" {
		end = ":1"
	}
	zvMal([]byte("f(a){"+strings.Repeat(open, n)+zvPick("inner", "a", "a;", ";", "")+strings.Repeat(end, m)+tail+"}"), 1)
}

func zvH_C05_T_top() { zvMal(zvBytes("b", 4), 0) }

func zvH_C05_T_stmt() { zvMal(zvCat("f(a){", zvBytes("b", 3), zvPick("end", "}", ";}", "")), 1) }

func zvH_C05_T_expr() {
	zvMal(zvCat("f(a){return(", zvBytes("b", 3), zvPick("end", ");}", ")", "")), 1)
}

// A token inserted or put in the place of a character.
func zvH_C05_T_token() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	t := zvPick("token", "(", ")", "()", "{", "}", "[", "]", ";", ",", ":", "=", "==", "+", "++", "--", "-", "*", "&", "?", "<<", "!=", "else", "if", "if(a)", "while", "switch", "case", "case 1:", "auto", "auto z;", "extrn", "extrn z;", "return", "return;", "goto", "goto l;", "l:", "1", "0", "a", "\"s\"", "'c'", "''", "/*", "*/", "'", "\"")
	k := vChoice("at", len(p))
	zvMal(zvCat(p[:k], " ", t, " ", p[k+vChoice("over", 2):]), 2)
}

func zvH_C05_T_two() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("at", len(p)-1)
	zvMal(zvCat(p[:k], zvBytes("b", 2), p[k+2:]), 2)
}

// Names that collide, or do not, at any distance: the marked places hold one arbitrary byte.
func zvH_C05_names() {
	p := zvPick("program", "f(a,b,~){return(a);}", "f(~,b,c){return(b);}", "f(a,~,b,c){return(a);}", "f(a,b){auto c,d,~;return(0);}", "f(a,b){auto c,~,d;return(0);}", "f(a,b){auto c;{auto d;}auto ~;return(0);}",
		"f(a){l:;m:;n:;~:;return(a);}", "f(a){~:;m:;{l:;}return(a);}", "f(a){while(a){l:a=0;}if(a)m:;~:return(a);}", "f(a){if(a==9)goto ~;l:;m:;return(a);}", "f(a){if(a==9){goto l;goto m;goto ~;}m:;l:;return(a);}", "f(a){if(a==9){goto ~;goto l;}l:;return(a);}g(){m:;}",
		"f(a){switch(a){case 1:;case 2:;case 3:;case ~:return(5);}return(a);}", "f(a){switch(a){case ~:;case 2:;case 'c':switch(a){case 1:;case 2:;}case 3:return(5);}return(a);}",
		"g;h(){}f(a){return(a);}~;", "g;h(){}f(a){return(a);}~(){}", "g;h(){}f(a){return(a);}~[2];", "g;f(a){h();return(a);}~ 5;", "g 2;f(a){extrn ~;return(a);}", "g 2;h(){}f(a){extrn i,~;return(a);}", "f(a){h();return(a);}k(){extrn ~;}")
	n := strings.Index(p, "~")
	zvMal(zvCat(p[:n], zvBytes("name", 1), p[n+1:]), 1)
}
