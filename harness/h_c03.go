package main

// C03: string literals.

// Arbitrary bytes between the quotes.
func zvH_C03_any() {
	n := vChoice("len", 4)
	zvDiff(zvCat("f(){return(\"", zvBytes("c", n), "\");}"), zvOpt{steps: 30, mayFail: true})
}

// Longer strings of plain bytes of every value.
func zvH_C03_long() {
	n := []int{4, 5, 8, 9, 16, 31}[vChoice("len", 6)]
	zvDiff(zvCat("f(){return(\"", zvPlain("c", n, '"'), "\");}"), zvOpt{steps: 30})
}

// One escape among plain bytes.
func zvH_C03_escape() {
	n := 1 + vChoice("len", 6)
	k := vChoice("at", n)
	zvDiff(zvCat("f(){return(\"", zvPlain("c", k, '"'), "*", zvBytes("e", 1), zvPlain("d", n-k-1, '"'), "\");}"), zvOpt{steps: 30, mayFail: true})
}

func zvH_C03_unterminated() {
	n := vChoice("len", 6)
	zvDiff(zvCat("f(){return(\"", zvPlain("c", n, '"'), zvPick("end", "", "*", "*n", "'")), zvOpt{mayFail: true})
}

// Initialisers.
func zvH_C03_init() {
	n := vChoice("len", 4)
	b := zvPlain("c", n, '"')
	switch vChoice("where", 4) {
	case 0:
		zvDiff(zvCat("g \"", b, "\"; f(){extrn g;return(g);}"), zvOpt{steps: 20})
	case 1:
		zvDiff(zvCat("v[3] \"", b, "\",1,\"", zvPlain("d", 2, '"'), "\"; f(){extrn v;x(v[0],v[2]);return(v[2]);}"), zvOpt{steps: 30})
	case 2:
		zvDiff(zvCat("g 1,\"", b, "\"; f(){extrn g;return((&g)[1]);}"), zvOpt{steps: 20})
	case 3:
		zvDiff(zvCat("v[] \"", b, "\", \"x\"; f(){extrn v;return(v[0]);}"), zvOpt{steps: 20})
	}
}

// Several literals in one program, in different functions: a reference never yields another literal.
func zvH_C03_many() {
	a, b, c, d := zvPlain("a", 2, '"'), zvPlain("b", 2, '"'), zvPlain("c", 1, '"'), zvPlain("d", 2, '"')
	zvDiff(zvCat("g \"", a, "\"; f(){extrn g;auto s;s=\"", b, "\";x(g,s,\"", c, "\",h());g=\"", d, "\";x(g);return(s);} h(){return(\"", d, c, "\");} v[2] \"", b, "\",\"", a, "\";"), zvOpt{steps: 60})
}

// Twelve literals: numbering beyond one digit.
func zvH_C03_dozen() {
	var src []byte
	src = append(src, "f(){"...)
	for i := 0; i < 12; i++ {
		src = zvCat(src, "x(\"", zvPlain("s", 1, '"'), "\");")
	}
	src = zvCat(src, "}g(){return(\"g\");} v[2] \"v\", \"w\";")
	zvDiff(src, zvOpt{steps: 80})
}

// A redefinition does not disturb literals already in use.
func zvH_C03_redefined() {
	a, b := zvPlain("a", 1, '"'), zvPlain("b", 1, '"')
	zvDiff(zvCat("g(){return(\"", a, "\");} v \"", b, "\"; v \"", a, b, "\"; g(){return(\"", b, b, "\");} f(){extrn v;x(v);return(g());}"), zvOpt{steps: 60})
}

func zvH_C03_T_any() {
	n := 4 + vChoice("len", 2)
	zvDiff(zvCat("f(){return(\"", zvBytes("c", n), "\");}"), zvOpt{steps: 30, mayFail: true})
}
