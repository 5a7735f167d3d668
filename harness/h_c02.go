package main

// C02: character constants.

func zvPlain(name string, n int, quote byte) []byte {
	b := zvBytes(name, n)
	for _, c := range b {
		vAssume(c != quote)
		vAssume(c != '*')
	}
	return b
}

// Up to eight arbitrary bytes without escapes are packed big-endian.
func zvH_C02_pack() {
	n := vChoice("len", 9)
	b := zvPlain("c", n, '\'')
	var want int64
	for _, c := range b {
		want = want<<8 | int64(c)
	}
	src := zvCat("f(){return('", b, "');}")
	vNote("source", string(src))
	mod, err := zvCompile(string(src))
	vAssert(err == nil, "a character constant was not accepted")
	m, fault := zvLoad(mod, &zvRets{}, 1000)
	vAssert(fault == "", "the module does not load")
	r, fault := m.zvRun("b.f", nil)
	vAssert(fault == "", "the function does not run")
	vEq(r, want, "the value of a character constant is wrong")
}

// Any bytes between the quotes and whatever they do.
func zvH_C02_any() {
	n := vChoice("len", 4)
	zvDiff(zvCat("f(){return('", zvBytes("c", n), "');}"), zvOpt{steps: 30, mayFail: true})
}

// One escape at any position among plain characters, up to ten characters.
func zvH_C02_escape() {
	n := 1 + vChoice("len", 9)
	k := vChoice("at", n)
	zvDiff(zvCat("f(){return('", zvPlain("c", k, '\''), "*", zvBytes("e", 1), zvPlain("d", n-k-1, '\''), "');}"), zvOpt{steps: 30, mayFail: true})
}

// Constants that end with the file, or are too long.
func zvH_C02_bad() {
	n := vChoice("len", 11)
	b := zvPlain("c", n, '\'')
	if vChoice("how", 2) == 0 {
		zvDiff(zvCat("f(){return('", b), zvOpt{mayFail: true})
		return
	}
	zvDiff(zvCat("f(){return('", b, "'); }"), zvOpt{steps: 20, mayFail: true})
}

// Other places a constant may stand.
func zvH_C02_where() {
	n := 1 + vChoice("len", 3)
	b := zvPlain("c", n, '\'')
	switch vChoice("where", 5) {
	case 0:
		zvDiff(zvCat("g '", b, "'; f(){extrn g;return(g);}"), zvOpt{steps: 20})
	case 1:
		zvDiff(zvCat("v[2] 1,'", b, "'; f(){extrn v;return(v[1]);}"), zvOpt{steps: 20})
	case 2:
		zvDiff(zvCat("f(a){a='", b, "'; x('", b, "',a);}"), zvOpt{args: zvArgs(1), steps: 20})
	case 3:
		zvDiff(zvCat("f(a){if(a=='", b, "')return(2);}"), zvOpt{args: zvArgs(1), steps: 20})
	case 4:
		zvDiff(zvCat("g 1,'", b, "',2; f(){extrn g;return((&g)[1]);}"), zvOpt{steps: 20})
	}
}

// Case labels: one symbolic byte, alone or in a longer constant.
func zvH_C02_case() {
	pre := zvPick("prefix", "", "ab", "*e*n", "abcdefg")
	b := zvPlain("c", 1, '\'')
	zvDiff(zvCat("f(a){switch(a){case '", pre, b, "': return(1);} return(0);}"), zvOpt{args: zvArgs(1), steps: 20})
}

func zvH_C02_caseesc() {
	zvDiff(zvCat("f(a){switch(a){case 'x*", zvBytes("e", 1), "': return(1);} return(0);}"), zvOpt{args: zvArgs(1), steps: 20, mayFail: true})
}

// As an automatic vector's size.
func zvH_C02_size() {
	b := zvBytes("c", 1)
	vAssume(b[0] <= 0x22)
	zvDiff(zvCat("f(){auto v['", b, "'],w;w=5;v[0]=1;x(v,w);return(v[0]);}"), zvOpt{steps: 40})
}

func zvH_C02_T_any() {
	n := 4 + vChoice("len", 2)
	zvDiff(zvCat("f(){return('", zvBytes("c", n), "');}"), zvOpt{steps: 30, mayFail: true})
}

// What may stand after eight characters, escaped or not: only the closing quote.
func zvH_C02_nine() {
	n := 6 + vChoice("len", 3)
	pre := "abcdefgh"[:n]
	if vBool("escape") {
		pre = pre[:n-1] + "*n"
	}
	zvDiff(zvCat("f(){return('", pre, zvBytes("c", 3), zvPick("rest", "');}", ");}", "''));}")), zvOpt{steps: 30, mayFail: true})
}
