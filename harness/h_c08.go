package main

// C08: operators. C07: their grouping.

var zvBinOps = []string{"*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "|"}

func zvBin(name string) string { return zvBinOps[vChoice(name, len(zvBinOps))] }

// Operands of every kind: the program below gives each of them its own arbitrary value.
var zvOperands = []string{"a", "b", "x", "g", "w[1]", "v[2]", "*p", "v[c&1]", "ff(a)", "(a+b)", "-a", "!b", "'d'", "1", "255", "9223372036854775807", "01000000000000000000000", "a?b:c", "x++", "--g", "&x", "\"s\"", "(b=c)", "a==b"}

// zvProgram is a program whose function f(a,b,c) executes a statement with local and global objects of every kind and
// then reports the state of all of them.
func zvProgram(decl, stmt, result string) []byte {
	return []byte("g 7;h -8;w[3]1,2,3;u 4,5,6;ff(n)return(n-1);f(a,b,c){" + decl + "auto x,y,v[3],p,q,r;extrn g,h,w,u;x=b;y=c;v[0]=a;v[1]=b;v[2]=c;p= &y;q=v;g=c;w[1]=a;r=0;" +
		stmt + "o(a,b,c,x,y,v[0],v[1],v[2]);o(g,h,w[0],w[1],w[2],r);return(" + result + ");}")
}

func zvFrameDiff(decl, stmt, result string) {
	zvDiff(zvProgram(decl, stmt, result), zvOpt{args: zvArgs(3), steps: 300, mayFail: true})
}

// The result for all operands, straight from the definition, without the reference implementation.
func zvH_C08_value() {
	op := zvBin("op")
	src := "f(a,b){return(a" + op + "b);}"
	vNote("source", src)
	mod, err := zvCompile(src)
	vAssert(err == nil, "an operator is rejected")
	m, fault := zvLoad(mod, &zvRets{}, 1000)
	vAssert(fault == "", "the module does not load")
	a, b := vI64("a"), vI64("b")
	var want int64
	switch op {
	case "+":
		want = a + b
	case "-":
		want = a - b
	case "*":
		want = a * b
	case "/", "%":
		vAssume(b != 0)
		vAssume(vB2I(a != -1<<63)|vB2I(b != -1) != 0)
		if op == "/" {
			want = a / b
		} else {
			want = a % b
		}
	case "&":
		want = a & b
	case "|":
		want = a | b
	case "<<":
		vAssume(uint64(b) < 64)
		want = a << uint64(b)
	case ">>":
		vAssume(uint64(b) < 64)
		want = a >> uint64(b)
	case "<":
		want = vB2I(a < b)
	case "<=":
		want = vB2I(a <= b)
	case ">":
		want = vB2I(a > b)
	case ">=":
		want = vB2I(a >= b)
	case "==":
		want = vB2I(a == b)
	case "!=":
		want = vB2I(a != b)
	}
	r, fault := m.zvRun("b.f", []int64{a, b})
	vAssert(fault == "", "the function does not run")
	vEq(r, want, "the result of an operator is wrong")
}

// Every operator on every kind of operand, on either side of a few others.
func zvH_C08_operands() {
	op := zvBin("op")
	l := zvOperands[vChoice("left", len(zvOperands))]
	if l == "a?b:c" {
		l = "(a?b:c)"
	}
	r := zvPick("right", "c", "7", "ff(g)")
	if vChoice("swap", 2) == 1 {
		l, r = r, l
	}
	zvFrameDiff("", "", l+" "+op+" "+r)
}

func zvH_C08_T_operands() {
	op := zvBin("op")
	l := zvOperands[vChoice("left", len(zvOperands))]
	r := zvOperands[vChoice("right", len(zvOperands))]
	if l == "a?b:c" {
		l = "(a?b:c)"
	}
	zvFrameDiff("", "", l+" "+op+" "+r)
}

// Literal operands: the digits are arbitrary, so folding at compile time is covered.
func zvH_C08_literals() {
	op := zvBin("op")
	l, r := zvDigits("l", 1+vChoice("n", 2)), zvDigits("r", 1)
	switch vChoice("form", 5) {
	case 0:
		zvDiff(zvCat("f(){return(", l, " ", op, " ", r, ");}"), zvOpt{steps: 30})
	case 1:
		zvDiff(zvCat("f(a){return(a ", op, " ", r, ");}"), zvOpt{args: zvArgs(1), steps: 30})
	case 2:
		zvDiff(zvCat("f(a){return(", l, op, " a);}"), zvOpt{args: zvArgs(1), steps: 30})
	case 3:
		zvDiff(zvCat("f(){return(-", l, " ", op, " ", r, ");}"), zvOpt{steps: 30})
	case 4:
		zvDiff(zvCat("f(){return(-", l, op, " -", r, ");}"), zvOpt{steps: 30})
	}
}

// A literal operand of any value.
func zvH_C08_number() {
	op := zvBin("op")
	d := zvDigits("d", []int{5, 10, 19}[vChoice("n", 3)])
	vAssume(d[0] != '0')
	if vChoice("form", 2) == 0 {
		zvDiff(zvCat("f(a){return(a ", op, " ", d, ");}"), zvOpt{args: zvArgs(1), steps: 30})
	} else {
		zvDiff(zvCat("f(a){return(", d, op, " a);}"), zvOpt{args: zvArgs(1), steps: 30})
	}
}

// The same operand on both sides, and neutral constants.
func zvH_C08_same() {
	op := zvBin("op")
	e := zvPick("form", "a@a", "a@0", "0@a", "a@1", "1@a", "a@-1", "-1@a", "-a@a", "!a@a", "a@!a", "a@-a", "(a@b)@(a@b)", "(a@b)@b", "a@(a@b)", "a@b@0", "a@(b@1)",
		"a@9223372036854775807", "a@-9223372036854775807", "a@01000000000000000000000", "01000000000000000000000@a", "4611686018427387904@a", "a@2", "2@a", "a@8", "a@63", "a@64", "a@4294967296", "a@-2", "a@'abcdefgh'", "4294967295@a", "a@2147483648")
	var out []byte
	for i := 0; i < len(e); i++ {
		if e[i] == '@' {
			out = append(out, " "+op+" "...)
		} else {
			out = append(out, e[i])
		}
	}
	zvDiff(zvCat("f(a,b){return(", out, ");}"), zvOpt{args: zvArgs(2), steps: 30})
}

// Unary operators, alone and combined.
func zvH_C08_unary() {
	u := zvPick("u1", "-", "!", "- -", "!!", "-!", "!-", "!!!", "- - -", "")
	e := zvPick("operand", "a", "7", "0", "01000000000000000000000", "9223372036854775807", "'a'", "g", "v[1]", "*p", "ff(b)", "x++", "++x", "(a<b)", "a*b", "a<b", "a==b", "a&b", "a|b", "(a|b)", "(a,b)", "a<<1", "\"s\"", "&x", "a?b:c", "-1", "!1")
	if e == "(a,b)" {
		e = "ff(a)*ff(b)"
	}
	zvFrameDiff("", "r= "+u+e+";", u+"("+e+")")
}

// Results used as conditions, indices, arguments and operands of other operators.
func zvH_C08_used() {
	op := zvBin("op")
	switch vChoice("use", 8) {
	case 0:
		zvFrameDiff("", "if(a "+op+" b)r=1;else r=2;", "r")
	case 1:
		zvFrameDiff("", "while(a "+op+" b){r=5;a=0;b=1;if(r)return(r);}", "r")
	case 2:
		zvFrameDiff("", "r=a "+op+" b?x:y;", "r")
	case 3:
		zvFrameDiff("", "r=!(a "+op+" b);", "-(a "+op+" b)")
	case 4:
		zvFrameDiff("", "o(a "+op+" b,1,ff(b "+op+" a));", "0")
	case 5:
		zvFrameDiff("", "w[(a "+op+" b)&1]=a "+op+" b;", "w[(a "+op+" b)&1]")
	case 6:
		zvFrameDiff("", "switch(a "+op+" b){case 0:r=1;case 1:r=r+2;case 7:r=r+4;}", "r")
	case 7:
		zvFrameDiff("", "g=a "+op+" b;*p=b "+op+" a;v[1]=x "+op+" y;", "(a "+op+" b)==(b "+op+" a)")
	}
}

func zvH_C08_T_zdeep() {
	o1, o2 := zvBin("op1"), zvBin("op2")
	l := zvOperands[vChoice("a", len(zvOperands))]
	m := zvOperands[vChoice("b", len(zvOperands))]
	if l == "a?b:c" {
		l = "(a?b:c)"
	}
	if m == "a?b:c" {
		m = "(a?b:c)"
	}
	zvFrameDiff("", "", l+" "+o1+" "+m+" "+o2+" b")
}
