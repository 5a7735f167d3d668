package main

import "strconv"

// C22: failures of the driver's steps.

// zvCheckEnd judges the state after a run in which steps may have failed.
func (j *zvJob) zvCheckEnd(mode int, out string, err error, save bool, fail bool) {
	w := zvW
	for i, n := range j.names {
		vNote("input "+strconv.Itoa(i), n)
	}
	vAssert(w.wild == "", w.wild)
	if fail || w.nF > 0 {
		vReach("failed")
		vAssert(err != nil, "a step failed but the driver reports success")
	} else {
		vReach("succeeded")
		vAssert(err == nil, "the driver fails although every step succeeds")
	}
	var outs []string
	if out != "" {
		outs = append(outs, zvNoDot(out))
	} else if mode == zvMExe {
		outs = append(outs, zvStem(j.names[0]))
	} else {
		for _, n := range j.names {
			outs = append(outs, zvStem(n)+[]string{".ll", ".s", ".o"}[mode])
		}
	}
	kept := 0
	for _, e := range w.ents {
		final := false
		for _, n := range outs {
			if e.name == n {
				final = true
			}
		}
		if e.made == 0 && !final {
			vAssert(e.there && !e.changed, "a file that is not an output is altered")
		}
		if e.made != 1 || final {
			continue
		}
		if !save {
			vNote("left", e.name)
			vAssert(!e.there, "an intermediate file is left behind")
		} else if e.closed {
			vNote("gone", e.name)
			vAssert(e.there, "an intermediate file is removed in spite of --save-temps")
			kept++
		}
	}
	if save && err == nil && mode != zvMIR {
		n := 0
		for _, x := range j.exts {
			if x == ".b" {
				n++
			}
		}
		vAssert(kept == n, "--save-temps does not keep one intermediate file for each source")
	}
	for i, n := range j.names {
		e := w.find(n)
		vAssert(e != nil && e.data == j.src[i], "an input file is altered")
	}
	for _, h := range w.hnds {
		vAssert(!h.wr || !h.open, "an output file is never closed")
	}
	// a failed source stops the link
	if fail && mode == zvMExe {
		vAssert(len(w.runs) == 0, "clang links although a source does not compile")
	}
}

// zvFaulty runs the driver with up to nf failing steps among the given kinds.
func zvFaulty(mode int, stems, exts []string, out string, nf int) {
	w := zvNewWorld()
	j := zvJobOf(mode, stems, exts)
	if j.bad || out != "" && len(stems) != 1 && mode != zvMExe {
		vAssume(false)
	}
	j.args.SaveTemps = vBool("save-temps")
	j.args.OutputFile = out
	save := j.args.SaveTemps
	// files of the user's with names close to the driver's own
	w.add("a.tmp", "user's")
	w.add("a.ll.bak", "user's")
	w.add("tmp.ll", "user's")
	if vBool("the output exists already") {
		n := out
		if n == "" {
			n = "a.out"
		}
		w.add(n, "old output")
	}
	w.maxF = nf
	w.kinds = "ocwsnk"
	if nf > 0 {
		w.readAt = vI64("number of the failing read")
	}
	err := Compile(j.args)
	j.zvCheckEnd(mode, out, err, save, false)
}

func zvKinds(n int) (stems, exts []string) {
	for i := 0; i < n; i++ {
		stems = append(stems, []string{"a", "d/x", "c.d"}[i])
		exts = append(exts, zvPick("ext", ".b", ".ll", ".s", ".o"))
	}
	return
}

func zvH_C22_one() {
	st, ex := zvKinds(1)
	zvFaulty(vChoice("mode", 4), st, ex, zvPick("out", "", "o", "p/q.r"), 1)
}

func zvH_C22_two() {
	st, ex := zvKinds(2)
	zvFaulty(vChoice("mode", 4), st, ex, zvPick("out", "", "o"), 1)
}

func zvH_C22_link() {
	st, ex := zvKinds(3)
	zvFaulty(zvMExe, st, ex, zvPick("out", "", "o"), 1)
}

// Two failures in one run.
func zvH_C22_twice() {
	st, ex := zvKinds(2)
	zvFaulty(vChoice("mode", 4), st, ex, "", 2)
}

func zvH_C22_T_three() {
	st, ex := zvKinds(3)
	zvFaulty(vChoice("mode", 4), st, ex, zvPick("out", "", "o"), 3)
}

// Inputs and other files of the user's with names like those of intermediates: they stay.
func zvH_C22_names() {
	st := []string{zvPick("first", "q.tmp.7", "q.tmp", "tmp", "d/q.tmp.0", "a.tmp.1"), "m"}
	ex := []string{zvPick("ext", ".ll", ".s", ".o", ".a", ".b"), ".b"}
	if vBool("swap") {
		st[0], st[1], ex[0], ex[1] = st[1], st[0], ex[1], ex[0]
	}
	mode := vChoice("mode", 4)
	zvFaulty(mode, st, ex, "", 1)
}

// A failure under every combination of the other options.
func zvH_C22_options() {
	w := zvNewWorld()
	mode := vChoice("mode", 4)
	n := 1 + vChoice("inputs", 2)
	j := zvJobOf(mode, []string{"a", "d/x"}[:n], []string{".b", ".b"}[:n])
	zvFlags(j)
	if vBool("libraries") {
		j.args.Libraries = []string{"m"}
		j.args.LibraryDirs = []string{"/usr/lib", "l"}
	}
	save := j.args.SaveTemps
	w.maxF = 1
	w.kinds = "ocwsnk"
	err := Compile(j.args)
	j.zvCheckEnd(mode, "", err, save, false)
}

// An input that is missing, or does not compile.
func zvH_C22_source() {
	w := zvNewWorld()
	mode := vChoice("mode", 4)
	n := 1 + vChoice("inputs", 3)
	st := []string{"a", "d/x", "c.d"}[:n]
	ex := []string{".b", ".b", ".b"}[:n]
	out := zvPick("out", "", "o")
	if out != "" && n != 1 && mode != zvMExe {
		vAssume(false)
	}
	j := zvJobOf(mode, st, ex)
	k := vChoice("which", n)
	e := w.find(j.names[k])
	switch vChoice("what", 3) {
	case 0:
		e.there = false
	case 1:
		e.data = "main(){return(x=;}"
	case 2:
		// one arbitrary byte in place of the last
		e.data = "f(){y();" + string(zvBytes("b", 1))
	}
	miss := !e.there
	_, ok := zvText(e.data)
	vAssume(miss || !ok)
	j.src[k] = e.data
	j.args.SaveTemps = vBool("save-temps")
	j.args.OutputFile = out
	save := j.args.SaveTemps
	if vBool("a step fails as well") {
		w.maxF = 1
		w.kinds = "ocwsnk"
	}
	err := Compile(j.args)
	if miss {
		e.there = true
	}
	j.zvCheckEnd(mode, out, err, save, true)
}

// A source with every construct whose reading fails at any byte.
type zvBadReader struct {
	s   string
	pos int
	end int64
}

func (r *zvBadReader) Read(p []byte) (int, error) {
	if int64(r.pos) >= r.end {
		return 0, zvEIO
	}
	p[0] = r.s[r.pos]
	r.pos++
	return 1, nil
}

var zvAllSrc = []string{
	"g 1,-2,'a',\"s\";v[3]1,g;/*c*/h;f(a,b){extrn g,h;auto x,y[2];l:x=a+b*3-1/2%5;y[0]=x<<1>>2;x=+1;x===2;x=<<1;",
	"f(a,b){if(a<b&a<=b|a==b)return(-a);else while(!b){a++;--b;a--;++b;}switch(a){case 1:case 'c':b=a?*b:&a;}",
	"f(a,b){goto l;l:g(a,\"x*n\",'*t')(1)[2];;{return;}a=a!=b;a=a>b;a=a>=b;a=>b;a=>=b;a=!=b;a=-b;a=*b;a=&b;a=|b;a=%b;a=/ b;",
}

func zvH_C22_reader() {
	s := zvAllSrc[vChoice("source", len(zvAllSrc))]
	closed := vChoice("closed", 2) == 1
	if closed {
		s += "}"
	}
	n := vI64("bytes read")
	vAssume(n >= 0)
	vAssume(n <= int64(len(s)))
	args := NewCompileOptions("blang", []string{"f.b"})
	c := NewCompiler(args)
	err := ParseDeclarations(NewLexer(args, &zvBadReader{s: s, end: n}), c)
	vNote("source", s)
	vAssert(err != nil, "reading the source fails but compilation succeeds")
}
