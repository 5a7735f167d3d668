package main

import (
	"strconv"
	"strings"
)

// Deep nesting ends, at any depth a program could have, and deep mistakes are rejected.
func zvH_C05_scale() {
	n := []int{127, 128, 129, 255, 256, 257}[vChoice("n", 6)]
	open := zvPick("open", "(", "{", "- ", "!", "*", "a[", "k(", "if(a)", "while(0)", "a?", "a=", "a+", "1?a:", "a<", "~", "/**/")
	end := map[string]string{"(": ")", "{": "}", "a[": "]", "k(": ")", "a?": ":1"}[open]
	m := n - vChoice("short", 2)
	tail := ";"
	if open == "{" {
		tail = ""
	}
	zvDiff([]byte("f(a){"+strings.Repeat(open, n)+zvPick("inner", "a", ";", "a b")+strings.Repeat(end, m)+tail+"}"), zvOpt{args: zvFix(1), steps: 9000, depth: 20, mayFail: true})
}

// The module of a large source is as well-formed as that of a small one.
func zvH_C06_scale() {
	n := zvSize(257)
	w := vChoice("what", 8)
	if (w == 3 || w >= 6) && n > 129 {
		n = 129
	}
	switch w {
	case 0:
		zvOnlyWF("f(){" + zvRep(n, "", "o(\"s#\");") + "}")
	case 1:
		zvOnlyWF(zvRep(n, "", "g# \"s#\",#;"))
	case 2:
		zvOnlyWF("f(a){" + zvRep(n, "", "if(a==#)return(#);") + "}")
	case 3:
		zvOnlyWF("f(a){" + zvRep(n, "", "l#:while(a<#)a++;") + "goto l" + zvNum(n-1) + ";}")
	case 4:
		zvOnlyWF("f(" + zvRep(n, ",", "p#") + "){return(f(" + zvRep(n, ",", "p#+1") + "));}")
	case 5:
		zvOnlyWF("f(a){auto " + zvRep(n, ",", "v#[3]") + ";" + zvRep(n, "", "v#[a]=a++;") + "}")
	case 6:
		zvOnlyWF(zvRep(n, "", "f#(a){l:if(a)goto l;while(a)return(a);}"))
	case 7:
		zvOnlyWF("f(a){" + zvRep(n, "", "switch(a){case #:a=#;case 7#:k(a);}") + "}")
	}
}

// A long history of compilations, with and without mistakes, makes no difference.
func zvH_C20_long() {
	src := zvDetSrc("source")
	a := zvOutcome(src)
	what := vChoice("before", 3)
	for i := 0; i < 12; i++ {
		other := zvDetSrcs[i%len(zvDetSrcs)]
		for k := 1; k <= 3; k++ {
			other = strings.ReplaceAll(other, "%"+strconv.Itoa(k), "n"+strconv.Itoa(i*k%7))
		}
		switch what {
		case 1:
			other = other[:len(other)/2]
		case 2:
			other = zvRep(20, "", "g"+strconv.Itoa(i)+"x# \"s#\";f"+strconv.Itoa(i)+"x#(a){extrn y#;goto l;l:;o(\"s#\");}")
		}
		zvOutcome(other)
	}
	b := zvOutcome(src)
	vNote("source", src)
	vNote("first", a)
	vNote("second", b)
	vAssert(a == b, "the outcome depends on what was compiled before")
}

func zvStemsN(n int) (stems []string) {
	form := zvPick("stems", "f#", "d#/f", "f.#", "aaaaaaaaaaaaaaaa#/bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb")
	for i := 0; i < n; i++ {
		stems = append(stems, strings.ReplaceAll(form, "#", strconv.Itoa(i)))
	}
	return
}

func zvExtsN(n int) (exts []string) {
	pat := [][]string{{".b"}, {".o"}, {".b", ".o"}, {".ll", ".b", ".s", ".b", ".a"}}[vChoice("exts", 4)]
	for i := 0; i < n; i++ {
		exts = append(exts, pat[i%len(pat)])
	}
	return
}

// Many inputs.
func zvH_C21_scale() {
	zvNewWorld()
	n := []int{9, 10, 11, 12, 33, 65}[vChoice("inputs", 6)]
	stems := zvStemsN(n)
	mode := vChoice("mode", 4)
	vAssume(mode == zvMExe || stems[0] != "d0/f" && stems[0][0] != 'a') // all outputs would have one name
	j := zvJobOf(mode, stems, zvExtsN(n))
	j.args.SaveTemps = vBool("save-temps")
	j.zvJudge(mode, zvPick("out", "", "o"))
}

func zvH_C22_scale() {
	n := 11
	var stems, exts []string
	mode := vChoice("mode", 4)
	for i := 0; i < n; i++ {
		stems = append(stems, "d"+strconv.Itoa(i)+"/f"+strconv.Itoa(i))
		if mode == zvMExe {
			exts = append(exts, []string{".b", ".ll", ".s", ".b", ".o", ".a"}[i%6])
		} else {
			exts = append(exts, ".b")
		}
	}
	zvFaulty(mode, stems, exts, "", 1)
}

// Many inputs, libraries and directories.
func zvH_C23_scale() {
	c := zvNewCLI()
	c.defaults()
	n := []int{3, 4, 5, 8, 9, 16, 17, 40}[vChoice("count", 8)]
	order := vChoice("order", 3)
	for i := 0; i < n; i++ {
		l, d := "lib"+strconv.Itoa(i), "dir"+strconv.Itoa(i)
		for k := 0; k < 3; k++ {
			switch (k + order) % 3 {
			case 0:
				c.add("-l" + l)
				c.opts.Libraries = append(c.opts.Libraries, l)
			case 1:
				c.add("-L", d)
				c.opts.LibraryDirs = append(c.opts.LibraryDirs, d)
			case 2:
				c.file("in"+strconv.Itoa(i), []string{".b", ".o", ".a"}[i%3])
			}
		}
	}
	c.zvRunCLI()
}

// Vectors of every order of magnitude: the first and last words are there, and what follows is not touched.
func zvH_C18_huge() {
	n := []int{4096, 8191, 8192, 32767, 32768, 65535, 65536, 65537, 99999, 131072}[vChoice("n", 10)]
	s := zvNum(n)
	zvDiff([]byte("u 1;v["+s+"];w 2;f(n){extrn u,v,w;v[0]=n;v["+zvNum(n-1)+"]=n+1;u=+v[1];w=+v["+zvNum(n-2)+"];return(v["+zvNum(n-1)+"]+v[0]);}"), zvOpt{args: zvArgs(1), steps: 60})
}

func zvH_C19_huge() {
	n := []int{512, 1000, 4096, 8191, 8192, 32767, 32768, 65535, 65536, 65537, 99999}[vChoice("n", 11)]
	s := zvNum(n)
	zvDiff([]byte("f(n){auto u,v["+s+"],w;u=1;w=2;v[0]=n;v[1]=3;v["+zvNum(n-2)+"]=4;v["+zvNum(n-1)+"]=n+1;return(u*1000+w*100+v[1]*10+v["+zvNum(n-2)+"]+v["+zvNum(n-1)+"]-v[0]);}"), zvOpt{args: zvArgs(1), steps: 100})
}

// Texts of many thousand bytes: nothing happens to a program where a buffer of any size would end.
func zvH_C04_large() {
	vBudget(4)
	n := []int{1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17}[vChoice("n", 5)]
	gap := "/*" + strings.Repeat(" ", n/2-2) + strings.Repeat("\n", n/2-35) + "*/"
	zvDiff(zvCat(gap, "v[3]1234567890123456789,'abcdefgh',-987654321987654321;f(a){extrn v;o(a,v[0],v[1],v[2],\"0123456789abcdefghijklmnop\");return(v[", zvDigits("d", 1), "]);}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}
