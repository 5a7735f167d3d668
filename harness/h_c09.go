package main

// C09: assignments.

var zvAsgOps = []string{"=", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<<", "=>>", "=<", "=<=", "=>", "=>=", "===", "=!="}

func zvAsg(name string) string { return zvAsgOps[vChoice(name, len(zvAsgOps))] }

var zvLvals = []string{"a", "x", "g", "h", "*p", "v[1]", "v[c&1]", "w[1]", "w[b&1]", "*q", "q[2]", "p[0]", "(&x)[0]", "*&x", "*(v+8)", "(v)[0]", "u", "v[v[0]&1]"}

// Every assignment operator on every kind of left operand; everything else stays as it was.
func zvH_C09_lvalues() {
	op := zvAsg("op")
	l := zvLvals[vChoice("lvalue", len(zvLvals))]
	r := zvPick("right", "b", "6", "ff(c)")
	zvFrameDiff("", "r= "+l+" "+op+" "+r+";", l)
}

// Every kind of right operand.
func zvH_C09_rights() {
	op := zvAsg("op")
	r := zvOperands[vChoice("right", len(zvOperands))]
	l := zvPick("lvalue", "x", "g", "w[2]")
	zvFrameDiff("", l+" "+op+" "+r+";", l)
}

// The right operand takes everything down to an assignment; the result is a value of its own.
func zvH_C09_nested() {
	op := zvAsg("op")
	op2 := zvPick("op2", "=", "=+", "=-", "=<")
	if vThorough() {
		op2 = zvAsg("any")
	}
	e := zvPick("form", "x @ y # a", "r = x @ a", "x @ (g # b)", "o(x @ a, y # b)", "v[(x @ a)&1] # b", "*(&x) @ b # c", "r = (x @ a) + (y # b)", "a ? x @ b : y # c", "x @ a ? b : y # c", "if(x @ a) y # b", "while(x @ a){y # b; if(y) return(x); return(y);}", "return((x @ a) == b)", "!(x @ a) ? y # b : 0", "g @ h @ w[0] # c")
	var out []byte
	for i := 0; i < len(e); i++ {
		switch e[i] {
		case '@':
			out = append(out, op...)
		case '#':
			out = append(out, op2...)
		default:
			out = append(out, e[i])
		}
	}
	zvFrameDiff("", string(out)+";", "x")
}

// Literal right operands with any digits, glued to the operator.
func zvH_C09_glued() {
	op := zvAsg("op")
	d := zvBytes("c", 1)
	zvDiff(zvCat("g;f(a,b){extrn g;g=b;a", op, d, ";g", op, " ", d, "1;return(a);}"), zvOpt{args: zvArgs(2), steps: 40, mayFail: true})
}

// A literal right operand of any value.
func zvH_C09_number() {
	op := zvAsg("op")
	d := zvDigits("d", []int{5, 10, 19}[vChoice("n", 3)])
	vAssume(d[0] != '0')
	zvDiff(zvCat("g;f(a,b){extrn g;g=b;a", op, " ", d, ";g", op, "a;return(a);}"), zvOpt{args: zvArgs(2), steps: 40, mayFail: true})
}

// The characters of the operator itself.
func zvH_C09_spelling() {
	c := zvBytes("c", 2)
	zvDiff(zvCat("f(a,b){a=", c, "b;return(a);}"), zvOpt{args: zvArgs(2), steps: 40, mayFail: true})
}

// Not an lvalue: rejected.
func zvH_C09_badleft() {
	l := zvPick("left", "1", "'a'", "\"s\"", "-a", "!a", "a++", "++a", "a+b", "(a)", "a?b:c", "ff(a)", "&a", "nosuch", "ff", "a==b", "*a+1", "a[1]+1", "(a=b)", "a=b", "()", "")
	zvFrameDiff("", l+" "+zvAsg("op")+" b;", "a")
}

func zvH_C09_T_all() {
	op := zvAsg("op")
	zvFrameDiff("", "r= "+zvLvals[vChoice("lvalue", len(zvLvals))]+" "+op+" "+zvOperands[vChoice("right", len(zvOperands))]+";", "a")
}

func zvH_C09_T_spelling() {
	zvDiff(zvCat("f(a,b){a=", zvBytes("c", 3), "b;return(a);}"), zvOpt{args: zvArgs(2), steps: 40, mayFail: true})
}
