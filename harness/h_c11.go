package main

// C11: conditional expressions.

func zvArm(name string, depth int) string {
	arms := []string{"a", "5", "(x=b)", "y++", "o(1)", "g", "v[c&1]", "*p", "ff(b)", "x=a", "-b", "a+b", "a<b", "x=y=c", "x=+a", "(a?1:2)", "\"s\"", "'c'", "!c", "a==b", "&x", "@?@:@", "(@?@:@)", "x=@?@:@", "o(@?@:@)", "@?@:@?@:@"}
	n := len(arms)
	if depth == 0 {
		n -= 5
	}
	s := arms[vChoice(name, n)]
	var out string
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			out += zvPick(name+"'", "a", "o(2)", "b=c")
		} else {
			out += s[i : i+1]
		}
	}
	return out
}

// Condition and arms of every kind; the calls of o record which arms were evaluated.
func zvH_C11_arms() {
	c := zvPick("cond", "a", "o(0)", "a<b", "a==b&c!=0", "!a", "x++", "0", "1", "(x=c)", "a-b", "a|b")
	zvFrameDiff("", "r= "+c+"?"+zvArm("then", 0)+":"+zvPick("else", "b", "o(3)", "x=c")+";", "r")
}

func zvH_C11_else() {
	zvFrameDiff("", "r= "+zvPick("cond", "a", "o(0)", "a>=b")+"?"+zvPick("then", "b", "o(3)", "(x=c)")+":"+zvArm("else", 0)+";", "r")
}

// Nested in the condition, either arm, or an operand.
func zvH_C11_nest() {
	in := zvPick("inner", "(a?o(1):o(2))", "(b?x=1:(y=2))", "(c?b:a)", "(a?b?o(4):o(5):c)")
	out := zvPick("outer", "#?b:c", "a?#:c", "a?b:#", "#+#", "-#", "!#", "o(#,b)", "v[#&1]", "x= #", "#?#:#", "a?#?o(6):o(7):#", "ff(#)", "*(#?p:q)", "#==#", "b<#", "(#)", "x=+#", "o(a?b:#)", "w[(#)&1]=#")
	var s string
	for i := 0; i < len(out); i++ {
		if out[i] == '#' {
			s += in
		} else {
			s += out[i : i+1]
		}
	}
	zvFrameDiff("", "r= "+s+";", "r")
}

// Without parentheses: ?: associates to the right.
func zvH_C11_chain() {
	s := zvPick("form", "a?1:b?2:3", "a?b?1:2:3", "a?b?1:2:c?3:4", "a?1:b?2:c?3:4", "a?b?c?1:2:3:4", "a==1?10:a==2?20:a==3?30:0", "a?o(1):b?o(2):o(3)", "a?x=1:2", "a?1:x=2", "x=a?1:2", "a?1:2,3", "a?:2", "a?1", "a?1:", "?1:2", "a:b", "a?1;2", "a?(1:2)", "a?b:c:1")
	zvFrameDiff("", "r= "+s+";", "r")
}

// Every place an expression may stand.
func zvH_C11_where() {
	e := zvPick("expr", "a?b:c", "a?o(1):o(2)", "a?x=b:y", "(a?b:c)")
	s := zvPick("where", "if(@)r=1;else r=2;", "while(@){r=1;return(r);}", "switch(@){case 0:r=1;case 1:r=+2;}", "return(@);", "o(@,@);", "@;", "v[(@)&1]=@;", "r=@;", "r= -(@);", "g=@;", "ff(@);", "*p=@;", "r=(@)==(@);", "r=w[(@)&1];", "{@;@;}", "l:@;", "if(a)@;else @;", "while(a){@;a=0;}")
	var out string
	for i := 0; i < len(s); i++ {
		if s[i] == '@' {
			out += e
		} else {
			out += s[i : i+1]
		}
	}
	zvFrameDiff("", out, "r")
}

// Inside loops and after other control flow.
func zvH_C11_loop() {
	s := zvPick("form", "while(x-->0)r=+x&1?o(x):2;", "while(r<3)r=r?r+1:r+2;", "i:r=a?r+1:5;if(r<3)goto i;", "switch(a?1:2){case 1:r=b?o(1):o(2);case 2:r=r?3:4;}", "if(a)r=b?1:2;else r=c?3:4;r=r==1?r:r+1;", "while(b?a:c){r=a?1:2;a=0;c=0;}")
	zvDiff(zvProgram("", "x=3;"+s, "r"), zvOpt{args: zvArgs(3), steps: 200, mayFail: true})
}

func zvH_C11_T_arms() {
	zvFrameDiff("", "r= "+zvArm("cond", 1)+"?"+zvArm("then", 1)+":"+zvArm("else", 0)+";", "r")
}

// The arm that is not chosen is not evaluated, not even when it only reads:
// it may follow a pointer that is null, or divide by zero.
func zvH_C11_guard() {
	s := zvPick("form", "p?*p:0", "p?p[1]:b", "p==0?b: *p", "!p?b:p[0]", "p!=0?(*p)+1:b", "p?*p?1:2:3", "a?*p:b", "b?c/b:0", "b==0?c:c%b", "b?a?c/b:1:2", "(b?c/b:0)+(p?*p:0)", "p?(x= *p):(x=1)", "p?ff(*p):ff(b)", "w[p?*p&1:0]", "p?b?c/b: *p:0", "b?a/b:p?*p:0", "b!=0?a%b:(p?*p:0)", "p?**&p:0", "b>0?a/(b*1):a%1")
	zvFrameDiff("", "p=0;if(a)p=v;r= "+s+";", "r")
}
