package main

import "strings"

// C15: return.

func zvH_C15_value() {
	e := zvOperands[vChoice("value", len(zvOperands))]
	s := zvPick("where", "return(@);", "if(a)return(@);", "if(a);else return(@);", "while(a)return(@);", "{return(@);}", "l:return(@);", "switch(a){case 1:return(@);}", "if(a){o(1);return(@);}else{return(2);}", "if(a)if(b)return(@);", "return(@);return(7);", "while(1)return(@);")
	zvFrameDiff("", zvFill(s, "@", e), "9")
}

// Statements after a return, before the next label or block.
func zvH_C15_dead() {
	ret := zvPick("return", "return(a);", "return;", "return(a?1:2);", "goto z;")
	s := zvStmts[vChoice("after", len(zvStmts))]
	form := zvPick("form", "if(a){@#}o(1);z:;", "@#z:;", "while(a){@#}z:;", "if(b)@else{#}z:;", "switch(a){case 1:@#case 2:;}z:;", "{@}#z:;", "@{#}z:;", "if(a)o(1);else{@#}z:;")
	zvDiff([]byte("g;f(a,b){"+zvFill(form, "@#%", ret, s, "o(2);")+"}"), zvOpt{args: zvArgs(2), steps: 80, mayFail: true})
}

// Functions that end without a return yield 0.
func zvH_C15_end() {
	s := zvPick("body", "{}", ";", "{a=5;}", "a=5;", "{if(a)return(1);}", "if(a)return(1);", "if(a)return(1);else return(2);", "{if(a)return(1);else b=2;}", "while(a)a=0;", "{while(a){a=0;}}", "{switch(a){case 1:return(4);}}", "switch(a){case 1:a=2;}", "{l:if(a){a=0;goto l;}}", "{return;}", "return;", "{if(a)return;return(3);}", "{o(a);}", "o(a);", "{auto x;x=a;}", "{{{a=1;}}}", "l:;", "{goto l;l:}", "{if(a){return(1);}else{return(2);}}", "{while(1){if(a)return(1);return;}}", "{extrn g;g=a;}", "{return(a);b=1;}", "{a;}", "\"s\";", "{if(a){if(b)return(1);}else return(2);}")
	zvDiff([]byte("g;f(a,b)"+s+"h(a){return(f(a,1)+2);}k()return(5);"), zvOpt{fn: zvPick("fn", "f", "h", "k"), args: zvArgs(2), steps: 80, mayFail: true})
}

// Nor does what the last statement computes matter.
func zvH_C15_last() {
	e := zvPick("last", "o(@)", "h(@)", "n=o(@)", "a=h(@)", "p(@)", "o(@)+1", "b?o(@):7", "h(o(@))", "v[0]=o(@)")
	n := vChoice("arguments", 10)
	if n == 0 {
		e = zvFill(e, "@", "")
	} else {
		e = zvFill(e, "@", "a"+strings.Repeat(",b", n-1))
	}
	form := zvPick("form", "$;", "if(a){$;}", "{while(a){$;a=0;}}", "switch(a){case 1:$;}", "l:$;", "{if(a)return(5);$;}")
	zvDiff([]byte("n;h(x)return(x+3);f(a,b){extrn n;auto p,v[1];p=b;"+zvFill(form, "$", e)+"}"), zvOpt{args: zvArgs(2), steps: 80, mayFail: true})
}

// Spelling.
func zvH_C15_spelling() {
	s := zvPick("form", "return@a;", "return@;", "return@(a);", "return(a)@;", "return(@a);", "retur@n(a);", "r@eturn(a);", "return(a@);", "return(a;@", "return((a)@);")
	zvDiff([]byte(zvFill("f(a){auto returna,r;"+s+"}", "@", string(zvBytes("c", 1)))), zvOpt{args: zvArgs(1), steps: 40, mayFail: true})
}

// A return ends only its own invocation.
func zvH_C15_frames() {
	p := zvPick("program", "g(n){if(n)return(5);o(n);}f(a){o(g(a));o(g(a+1));return(g(a)+g(1));}", "f(a){if(a>3)return(f(3));if(a<1)return(0);return(a+f(a-1));}", "g(n)return(n?h(n):9);h(n){if(n==1){return;o(1);}return(n);}f(a)return(g(a)*10+h(a));", "f(a){while(a){o(k());a=0;}return(k()+1);}k(){while(1){while(1)return(3);}}", "g(n)switch(n){case 1:return(10);case 2:return;}f(a){return(g(a)+1);}")
	zvDiff([]byte(p), zvOpt{args: zvArgs(1), steps: 200})
}
