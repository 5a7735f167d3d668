package main

// C07: grouping of operators.

func zvArgs(n int) []int64 {
	out := make([]int64, n)
	for i := range out {
		out[i] = vI64("arg")
	}
	return out
}

// Two binary operators, three operands.
func zvH_C07_two() {
	zvDiff(zvCat("f(a,b,c){return(a ", zvBin("op1"), " b ", zvBin("op2"), " c);}"), zvOpt{args: zvArgs(3), steps: 100})
}

// Parentheses override.
func zvH_C07_paren() {
	o1, o2 := zvBin("op1"), zvBin("op2")
	if vChoice("side", 2) == 0 {
		zvDiff(zvCat("f(a,b,c){return((a ", o1, " b) ", o2, " c);}"), zvOpt{args: zvArgs(3), steps: 100})
	} else {
		zvDiff(zvCat("f(a,b,c){return(a ", o1, " (b ", o2, " c));}"), zvOpt{args: zvArgs(3), steps: 100})
	}
}

// Unary and postfix operators against binary ones, on either side.
func zvH_C07_unary() {
	op := zvBin("op")
	u := zvPick("unary", "-#", "!#", "#++", "#--", "++#", "--#", "*&#", "-*&#", "!-#", "-#++", "!#--", "- --#", "!++#", "-!#", "*#p", "-#v[1]", "#v[b&1]", "#ff(b)", "!#ff(b)", "-#v[1]++", "++#v[1]", "*&#v[1]", "*#p++", "(*#p)++", "++*#p", "-*#p", "&*#p==p", "*#q", "(&#y)[0]", "-(&#y)[0]", "--*#p")
	side := vChoice("side", 2)
	var e string
	for i := 0; i < len(u); i++ {
		if u[i] == '#' {
			if i+1 == len(u) || u[i+1] < 'a' {
				e += "x"
			}
			continue
		}
		e += u[i : i+1]
	}
	if side == 0 {
		zvFrameDiff("", "r= "+e+" "+op+" c;", "p==&y")
	} else {
		zvFrameDiff("", "r=c "+op+" "+e+";", "p==&y")
	}
}

// Conditional and assignment operators against binary ones and each other.
func zvH_C07_ternary() {
	op := zvBin("op")
	e := zvPick("form", "a@b?c:x", "a?b@c:x", "a?b:c@x", "a?b:c?x:y", "a?b?c:x:y", "a@b?c@a:b@c", "r=a@b", "r=a?b:c", "r=a@b?b:c", "r=y=a@b", "a?r=b:c", "r=a?y=b@c:x", "x=+a@b", "x=-r=a@b", "r=x=*a@b", "(r=a)@b", "a@(r=b)", "(a?b:c)@a", "a@(b?c:a)", "r=+x=+a", "r=a?b:x=c", "!a@b?c:x", "-a?b:c", "a++?x:y", "a?b:c?x@y:a", "a@b@c?x:y", "a?b:r=y=c@a")
	var out []byte
	for i := 0; i < len(e); i++ {
		if e[i] == '@' {
			out = append(out, " "+op+" "...)
		} else {
			out = append(out, e[i])
		}
	}
	zvFrameDiff("", "y= "+string(out)+";", "x")
}

// Three binary operators.
func zvH_C07_T_three() {
	zvDiff(zvCat("f(a,b,c,d){return(a ", zvBin("op1"), " b ", zvBin("op2"), " c ", zvBin("op3"), " d);}"), zvOpt{args: zvArgs(4), steps: 100})
}

// Four operators of the same level or of any two.
func zvH_C07_T_four() {
	o1, o2 := zvBin("op1"), zvBin("op2")
	p := vChoice("pattern", 8)
	ops := [4]string{}
	for i := range ops {
		ops[i] = o1
		if p>>i&1 != 0 {
			ops[i] = o2
		}
	}
	zvDiff(zvCat("f(a,b,c,d,e){return(a ", ops[0], " b ", ops[1], " c ", ops[2], " d ", ops[3], " e);}"), zvOpt{args: zvArgs(5), steps: 100})
}
