package main

import "strings"

// C12: if, else, while.

// zvFill replaces the marks @ # $ in a template by the given strings, in turn.
func zvFill(t, marks string, by ...string) string {
	for i, b := range by {
		t = strings.ReplaceAll(t, marks[i:i+1], b)
	}
	return t
}

// Conditions of every kind, arbitrary values.
func zvH_C12_cond() {
	c := zvPick("cond", "a", "a<b", "a==b", "!a", "a=b", "a==0", "x--", "o(1)", "a&1", "a-b", "a?b:c", "0", "1", "-1", "4294967296", "g", "*p", "v[1]", "\"s\"", "'*0'", "'a'", "a<<32", "!!a", "p", "(a)", "a&b|c", "01000000000000000000000")
	s := zvPick("stmt", "if(@)r=1;", "if(@)r=1;else r=2;", "if(@);else r=2;", "if(@){r=1;}else{r=2;}", "while(@){r=1;return(r);}", "while(@)return(5);", "if(@)if(b)r=1;else r=2;")
	zvFrameDiff("", zvFill(s, "@", c), "r")
}

var zvBodies = []string{";", "r=r+1;", "{}", "{r=r+1;}", "o(r);", "return(r);", "{r=r*2;o(r);}", "if(b)r=r+4;", "if(b)r=r+4;else r=r+8;", "while(b){b=0;r=r+16;}", "switch(b){case 1:r=r+32;}", "{auto t;t=r;r=t+64;}", "if(b)if(c)r=r+4;else r=r+8;", "goto e;", "l:r=r+1;"}

// Every statement as a branch of an if, with and without else.
func zvH_C12_if() {
	a := zvBodies[vChoice("then", len(zvBodies))]
	b := zvBodies[vChoice("else", len(zvBodies))]
	s := zvPick("form", "if(a)@else #", "if(a){@}else{#}", "if(a)@if(c)#")
	if strings.Count(a+b, "l:") == 2 {
		b = strings.ReplaceAll(b, "l:", "m:")
	}
	zvFrameDiff("", zvFill(s, "@#", a, b)+"o(9);e:;", "r")
}

// Chains and the dangling else.
func zvH_C12_else() {
	s := zvPick("form", "if(a)if(b)r=1;else r=2;", "if(a)if(b)r=1;else r=2;else r=3;", "if(a){if(b)r=1;}else r=2;", "if(a)r=1;else if(b)r=2;else if(c)r=3;else r=4;", "if(a)while(b)if(c){b=0;r=1;}else{b=0;r=2;}", "if(a)while(b){b=0;}else r=2;",
		"if(a)if(b)if(c)r=1;else r=2;else r=3;else r=4;", "if(a)if(b)if(c)r=1;else r=2;else r=3;", "if(a)if(b)if(c)r=1;else r=2;", "while(a)if(b){a=0;r=1;}else{a=0;r=2;}", "if(a)l:if(b)r=1;else r=2;", "if(a)switch(b){case 1:r=1;}else r=2;", "if(a)switch(b)case 1:r=1;else r=2;", "if(a)return(1);else return(2);r=3;", "if(a)return(1);if(b)return(2);else r=7;r=r+3;",
		"if(a)if(b){}else{}else r=2;", "if(a);else;", "if(a){r=1;}else;r=r+2;", "if(a)r=1;else{if(b)r=2;}r=r+4;", "if(a)goto x1;else goto x2;x1:r=1;x2:r=r+2;", "else r=1;", "if(a)else r=1;", "if a r=1;", "if(a)r=1 else r=2;", "if(a)r=1;;else r=2;", "if()r=1;", "if(a r=1;", "while a;", "while()r=1;", "while(a)", "if(a)", "if(a)r=1;else")
	zvFrameDiff("", s, "r")
}

// The spelling around the keywords: any byte before and after them.
func zvH_C12_spelling() {
	s := zvPick("form", "if@(a)r=1;", "if(a)r=1;else@r=2;", "if(a)r=1;@else r=2;", "if(a)r=1;else@{r=2;}", "while@(a){a=0;r=1;}", "if(a)r=1;else@if(b)r=2;", "if(a){r=1;}@else r=2;", "if(a)r=1;else@;r=r+1;", "if(a)r=1;else@*p=1;", "if(a)r=1;else@(a);", "if(a)@;else r=2;", "i@f(a)r=1;", "if(a)r=1;els@e r=2;", "wh@ile(a)a=0;", "@if(a)r=1;", "@while(a)a=0;")
	zvFrameDiff("auto elser,elseq,ifx,whilex,else1,xelse,iff,whil;", zvFill(s, "@", string(zvBytes("c", 1))), "r")
}

// else is recognised, and only as a whole word.
func zvH_C12_words() {
	s := zvPick("form", "if(a)r=1;elsex=2;", "if(a)r=1;else1=2;", "if(a)r=1;else_=2;", "elsewhere=1;", "ifa=1;", "if1(a);", "whilea=2;", "while_(a);", "if(a)r=1;elser=2;", "if(a)r=1;elsif(b)r=2;", "if(a)r=1;Else r=2;", "IF(a)r=1;", "if(a)r=1;else/**/r=2;", "if/**/(a)r=1;", "while /* x */ (a) a=0;", "if(a)r=1;else\nr=2;", "if\n(a)\nr=1;\nelse\n\nr=2;", "if(a)r=1;e=2;", "if(a)r=1;el=2;", "if(a)r=1;els=2;", "if(a)r=1;e:r=3;", "if(a){r=1;}elsex=3;", "if(a){r=1;}e=3;", "if(a)return;e=3;", "if(a)r=1;\"x\";", "if(a)r=1;'x';", "if(a)r=1;}{")
	zvFrameDiff("auto elsex,else1,else_,elsewhere,ifa,whilea,elser,elsif,Else,e,el,els;", s, "r")
}

// Loops: any number of iterations up to the bound.
func zvH_C12_while() {
	s := zvPick("form", "while(a>0)a--,r++;", "while(a>0){a--;r=r+a;}", "while(a-->0)r=+2;", "while(r<a)r=+3;", "while(a){a=a>>1&127;r++;}", "while(a>0){a=a-1;b=4;while(b>2){b--;r++;}}", "while(a>0)if(a&1){a--;o(a);}else a=a-3;", "while(a>0){if(a==3){a=0;r=100;}else a--;}", "while(a>0){a--;if(a==2)goto q;}q:r=+5;", "while(a>0){a--;switch(a){case 1:o(1);case 2:o(2);}}", "while(a>0){auto t;o(t);t=a;a--;o(t);}", "while(a>0){a--;if(b)return(a);}", "l:if(a>0){a--;r++;goto l;}", "while(a>0)while(a>0)a--;", "while(a>0){while(a>2)a=a-2;a--;r++;}", "while(o(a)){a--;}", "while(a>0){a--;}while(b>0){b--;r++;}")
	zvDiff(zvProgram("", "if(a>5)a=5;if(b>2)b=2;"+s, "r"), zvOpt{args: zvArgs(3), steps: 220, mayFail: true})
}

// Nesting three deep, structures chosen freely.
func zvH_C12_nest() {
	s := "@"
	for d := 0; d < 3; d++ {
		v := []string{"a", "b", "c"}[d]
		k := zvPick("s", "if(%)@", "if(%)@else o(%);", "if(%)o(1);else @", "while(%){%=0;@}", "{o(%);@o(8);}", "if(%){@}else{o(2);}o(3);", "switch(%){case 1:@case 2:o(5);}")
		s = strings.Replace(s, "@", strings.ReplaceAll(k, "%", v), 1)
	}
	zvFrameDiff("", strings.Replace(s, "@", "r=1;", 1)+"o(7);", "r")
}

func zvH_C12_T_nest() {
	s := "@"
	for d := 0; d < 4; d++ {
		v := []string{"a", "b", "c", "x"}[d]
		k := zvPick("s", "if(%)@", "if(%)@else o(%);", "if(%)o(1);else @", "while(%){%=0;@}", "{o(%);@o(8);}", "if(%){@}else{o(2);}o(3);", "switch(%){case 1:@case 2:o(5);}", "l%:@", "while(%--){o(4);@return(6);}", "if(!%)return(%);@")
		s = strings.Replace(s, "@", strings.ReplaceAll(k, "%", v), 1)
	}
	zvFrameDiff("", strings.Replace(s, "@", "r=1;", 1)+"o(7);", "r")
}

func zvH_C12_T_spelling() {
	s := zvPick("form", "if@(a)r=1;", "if(a)r=1;else@r=2;", "if(a)r=1;@else r=2;", "while@(a){a=0;r=1;}", "if(a)@;else r=2;")
	zvDiff([]byte(zvFill("f(a){auto r;r=0;"+s+"return(r);}", "@", string(zvBytes("c", 2)))), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}
