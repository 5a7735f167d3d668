package main

// C01: integer literals.

func zvBytes(name string, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = vByte(name)
	}
	return out
}

func zvCat(parts ...any) []byte {
	var out []byte
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			out = append(out, x...)
		case []byte:
			out = append(out, x...)
		case byte:
			out = append(out, x)
		}
	}
	return out
}

func zvPick(name string, opts ...string) string { return opts[vChoice(name, len(opts))] }

// A literal of up to 20 symbolic digits as an operand.
func zvH_C01_expr() {
	n := 1 + vChoice("len", 20)
	d := zvDigits("d", n)
	zvDiff(zvCat("f(){return(", d, ");}"), zvOpt{steps: 20})
}

// The value itself, without the reference parser.
func zvH_C01_value() {
	n := 1 + vChoice("len", 22)
	d := zvDigits("d", n)
	vNote("literal", string(d))
	mod, err := zvCompile("f(){return(" + string(d) + ");}")
	vAssert(err == nil, "an integer literal was not accepted")
	m, fault := zvLoad(mod, &zvRets{}, 1000)
	vAssert(fault == "", "the module does not load")
	r, fault := m.zvRun("b.f", nil)
	vAssert(fault == "", "the function does not run")
	vEq(r, zvNumVal(d), "the value of an integer literal is wrong")
}

// Operands of operators, call arguments, subscripts, assignments.
func zvH_C01_operand() {
	n := 1 + vChoice("len", 4)
	d := zvDigits("d", n)
	switch vChoice("where", 5) {
	case 0:
		zvDiff(zvCat("f(a){return(a+", d, ");}"), zvOpt{args: zvArgs(1), steps: 20})
	case 1:
		zvDiff(zvCat("f(a){a= -", d, ";return(a);}"), zvOpt{args: zvArgs(1), steps: 20})
	case 2:
		zvDiff(zvCat("f(){x(", d, ",1,", d, ");}"), zvOpt{steps: 20})
	case 3:
		zvDiff(zvCat("f(a){if(a<", d, ")return(1);return(", d, "==a);}"), zvOpt{args: zvArgs(1), steps: 20})
	case 4:
		zvDiff(zvCat("f(a){extrn v;return(a?", d, ":-", d, ");} v ", d, ";"), zvOpt{args: zvArgs(1), steps: 20})
	}
}

// Initialisers of scalars and vectors, with and without a sign.
func zvH_C01_init() {
	n := 1 + vChoice("len", 20)
	d := zvDigits("d", n)
	s := zvPick("sign", "", "-")
	switch vChoice("where", 4) {
	case 0:
		zvDiff(zvCat("g ", s, d, "; f(){extrn g;return(g);}"), zvOpt{steps: 20})
	case 1:
		zvDiff(zvCat("g 1,", s, d, "; f(){extrn g;return((&g)[1]);}"), zvOpt{steps: 20})
	case 2:
		zvDiff(zvCat("v[2] ", s, d, "; f(){extrn v;return(v[0]);}"), zvOpt{steps: 20})
	case 3:
		zvDiff(zvCat("v[] 7, ", s, d, " ; f(){extrn v;return(v[1]);}"), zvOpt{steps: 20})
	}
}

// Case labels: the last one or two digits are symbolic after each of several prefixes.
func zvH_C01_case() {
	pre := zvPick("prefix", "", "0", "1", "9", "07", "1844674407370955161", "922337203685477580", "1844674407370955162", "177777777777777777777")
	d := zvDigits("d", 1)
	zvDiff(zvCat("f(a){switch(a){case ", pre, d, ": return(1);} return(0);}"), zvOpt{args: zvArgs(1), steps: 20})
}

// Vector sizes.
func zvH_C01_size() {
	d := zvDigits("d", 1+vChoice("len", 2))
	// two digits, the first small: the interpreter materialises every word
	if len(d) == 2 {
		vAssume(d[0] <= '2')
	}
	switch vChoice("where", 3) {
	case 0:
		zvDiff(zvCat("v[", d, "];f(){extrn v;return(v);}"), zvOpt{steps: 20})
	case 1:
		zvDiff(zvCat("v[", d, "] 1;f(){extrn v;return(v);}"), zvOpt{steps: 20})
	case 2:
		zvDiff(zvCat("f(){auto v[", d, "],w;w=5;v[0]=1;x(v,w);return(v[0]);}"), zvOpt{steps: 40})
	}
}

func zvH_C01_T_case2() {
	pre := zvPick("prefix", "", "0", "1", "07", "184467440737095516", "92233720368547758")
	d := zvDigits("d", 2)
	zvDiff(zvCat("f(a){switch(a){case ", pre, d, ": return(1);} return(0);}"), zvOpt{args: zvArgs(1), steps: 20})
}

func zvH_C01_T_size() {
	d := zvDigits("d", 3)
	vAssume(d[0] <= '1')
	zvDiff(zvCat("v[", d, "];f(){extrn v;return(v);}"), zvOpt{steps: 20})
}
