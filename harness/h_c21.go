package main

import "strconv"

// C21: the driver's outputs and the commands it hands to clang.

var zvExts = []string{".b", ".ll", ".s", ".o", ".a"}

var zvSrcs = []string{"a 1;", "main(){return(7);}", "g(x){extrn h;h=x;}"}

type zvJob struct {
	args  *CompileOptions
	names []string
	exts  []string
	texts []string // what clang sees of each input
	src   []string
	bad   bool // an extension the mode does not accept
}

const (
	zvMIR = iota
	zvMAsm
	zvMObj
	zvMExe
)

// zvJobOf builds options for a mode and inputs with the given names (each with its extension) and fills the file system.
func zvJobOf(mode int, stems, exts []string) *zvJob {
	w := zvW
	j := &zvJob{}
	for i := range stems {
		j.names = append(j.names, stems[i]+exts[i])
	}
	j.exts = exts
	j.args = NewCompileOptions("blang", j.names)
	j.args.OutputType = []OutputType{OutputIR, OutputAssembly, OutputObject, OutputExecutable}[mode]
	for i, n := range j.names {
		src := "contents of input " + strconv.Itoa(i)
		txt := src
		switch exts[i] {
		case ".b":
			src = zvSrcs[i%len(zvSrcs)]
			t, ok := zvText(src)
			vAssert(ok, "a well-formed source is rejected")
			txt = t
		case ".ll":
			j.bad = j.bad || mode == zvMIR
		case ".s":
			j.bad = j.bad || mode == zvMIR || mode == zvMAsm
		case ".o", ".a":
			j.bad = j.bad || mode != zvMExe
		default:
			j.bad = true
		}
		j.src = append(j.src, src)
		j.texts = append(j.texts, txt)
		w.add(n, src)
	}
	return j
}

func zvFlags(j *zvJob) {
	j.args.Optimize = vChoice("optimize", 4)
	j.args.DebugInfo = vBool("debug")
	j.args.SaveTemps = vBool("save-temps")
	j.args.Verbose = vBool("verbose")
}

// zvWant is what clang leaves in the output of the given inputs.
func (j *zvJob) zvWant(mode int, o *CompileOptions, idx ...int) string {
	if mode == zvMIR {
		return j.texts[idx[0]]
	}
	r := &zvClang{mode: []string{"", "S", "c", ""}[mode], g: o.DebugInfo, dirs: o.LibraryDirs}
	if o.Optimize > 0 {
		r.opt = strconv.Itoa(o.Optimize)
	}
	if mode == zvMExe {
		r.rest = []string{"-static", "-nostdlib"}
	}
	s := r.head()
	for _, i := range idx {
		s += j.texts[i] + ";"
	}
	if mode == zvMExe {
		s += "-lb;"
		for _, l := range o.Libraries {
			s += "-l" + l + ";"
		}
	}
	return s
}

// zvJudge compiles and compares everything the run left behind with the documentation.
func (j *zvJob) zvJudge(mode int, out string) {
	w := zvW
	o := *j.args // before the driver touches it
	for i, n := range j.names {
		vNote("input "+strconv.Itoa(i), n)
	}
	vNote("-o", out)
	j.args.OutputFile = out
	err := Compile(j.args)
	vAssert(w.wild == "", w.wild)
	if j.bad || out != "" && len(j.names) != 1 && mode != zvMExe {
		vReach("rejected")
		vAssert(err != nil, "an input or -o that the mode does not accept is accepted")
		vAssert(len(w.runs) == 0, "clang is run although the command line is rejected")
		return
	}
	vReach("accepted")
	vAssert(err == nil, "an acceptable command line fails")
	for _, r := range w.runs {
		vAssert(r.bad == "", "clang command: "+r.bad)
	}
	var outs []string
	if mode == zvMExe {
		n := out
		if n == "" {
			n = zvStem(j.names[0])
		}
		e := w.find(n)
		vAssert(e != nil, "the executable is not where it is documented to be")
		all := make([]int, len(j.names))
		for i := range all {
			all[i] = i
		}
		vNote("got", e.data)
		vNote("want", j.zvWant(mode, &o, all...))
		vAssert(e.data == j.zvWant(mode, &o, all...), "the executable is not linked from all inputs and libraries in order with the requested options")
		outs = append(outs, n)
		vAssert(len(w.runs) == 1, "clang is not run exactly once")
	} else {
		for i := range j.names {
			n := out
			if n == "" {
				n = zvStem(j.names[i]) + []string{".ll", ".s", ".o"}[mode]
			}
			e := w.find(n)
			vAssert(e != nil, "an output is not where it is documented to be")
			vNote("got", e.data)
			vNote("want", j.zvWant(mode, &o, i))
			vAssert(e.data == j.zvWant(mode, &o, i), "an output does not hold the translation of its input with the requested options")
			outs = append(outs, n)
		}
		if mode == zvMIR {
			vAssert(len(w.runs) == 0, "clang is run to emit LLVM IR")
		} else {
			vAssert(len(w.runs) == len(j.names), "clang is not run once for each input")
		}
	}
	for _, e := range w.ents {
		if !e.there || e.made == 0 {
			continue
		}
		final := false
		for _, n := range outs {
			if e.name == zvNoDot(n) {
				final = true
			}
		}
		vAssert(final || o.SaveTemps && e.made == 1, "a file is left behind that was not asked for")
	}
	for i, n := range j.names {
		e := w.find(n)
		vAssert(e != nil && e.data == j.src[i], "an input file is altered")
	}
}

// zvName is a stem out of arbitrary bytes.
func zvName(name string, n int) string {
	b := zvBytes(name, n)
	for i := range b {
		vAssume(b[i] != 0)
	}
	vAssume(b[0] != '-')
	vAssume(b[n-1] != '/')
	return string(b)
}

var zvStems = []string{"a", "d/x", "c.d", "../e.f/g", "b.b"}

// One input whose name has arbitrary bytes in it.
func zvH_C21_name() {
	zvNewWorld()
	mode := vChoice("mode", 4)
	stem := zvName("stem", 2)
	if stem[0] == '.' {
		vAssume(stem[1] != '.')
	}
	j := zvJobOf(mode, []string{stem}, []string{zvExts[vChoice("ext", len(zvExts))]})
	if mode == zvMExe {
		j.args.Libraries = []string{"m"}
	}
	j.zvJudge(mode, "")
}

// -o with arbitrary bytes.
func zvH_C21_output() {
	zvNewWorld()
	mode := vChoice("mode", 4)
	j := zvJobOf(mode, []string{"src"}, []string{zvExts[vChoice("ext", len(zvExts))]})
	out := zvName("out", 3)
	zvFlags(j)
	j.zvJudge(mode, out)
}

// Every mode, one to three inputs of every kind, with and without -o, every option.
func zvMany(mode int, n int) {
	zvNewWorld()
	var stems, exts []string
	st := zvStems[vChoice("stems", 2)*2:]
	for i := 0; i < n; i++ {
		stems = append(stems, st[i])
		exts = append(exts, zvExts[vChoice("ext", len(zvExts))])
	}
	j := zvJobOf(mode, stems, exts)
	zvFlags(j)
	j.zvJudge(mode, zvPick("out", "", "o", "p/q.r"))
}

func zvH_C21_one()   { zvMany(vChoice("mode", 4), 1) }
func zvH_C21_two()   { zvMany(vChoice("mode", 4), 2) }
func zvH_C21_three() { zvMany(zvMExe, 3) }

func zvH_C21_T_three() { zvMany(vChoice("mode", 3), 3) }

// Directories and libraries with arbitrary names, in order.
func zvH_C21_libs() {
	zvNewWorld()
	j := zvJobOf(zvMExe, []string{"main", "second"}, []string{".b", zvExts[vChoice("ext", len(zvExts))]})
	for i := vChoice("dirs", 3); i > 0; i-- {
		j.args.LibraryDirs = append(j.args.LibraryDirs, string(zvBytes("dir", 1))+"/"+strconv.Itoa(i))
	}
	for i := vChoice("libs", 3); i > 0; i-- {
		j.args.Libraries = append(j.args.Libraries, string(zvBytes("lib", 2)))
	}
	zvFlags(j)
	j.args.Verbose = false
	j.zvJudge(zvMExe, "prog")
}

// The same base name in different directories, and the same file twice, when linking.
func zvH_C21_same() {
	zvNewWorld()
	n := 2 + vChoice("inputs", 2)
	var stems, exts []string
	for i := 0; i < n; i++ {
		stems = append(stems, zvPick("stem", "a", "d/a", "e/a"))
		exts = append(exts, zvPick("ext", ".b", ".ll", ".o"))
		for k := 0; k < i; k++ {
			vAssume(stems[k] != stems[i] || exts[k] != exts[i])
		}
	}
	j := zvJobOf(zvMExe, stems, exts)
	j.args.SaveTemps = vBool("save-temps")
	j.zvJudge(zvMExe, zvPick("out", "", "o"))
}

// zvExtOf is the extension of the last component of a path.
func zvExtOf(name string) string {
	for i := len(name) - 1; i >= 0 && name[i] != '/'; i-- {
		if name[i] == '.' {
			return name[i:]
		}
	}
	return ""
}

// The extension itself has arbitrary bytes.
func zvExtBytes(n int) {
	zvNewWorld()
	mode := vChoice("mode", 4)
	b := zvBytes("name", n)
	for i := range b {
		vAssume(b[i] != 0)
	}
	vAssume(b[n-1] != '/')
	name := "n" + string(b)
	ext := zvExtOf(name)
	if zvStem(name) == "" {
		vAssume(false)
	}
	known := ""
	for _, e := range zvExts {
		if e == ext {
			known = e
		}
	}
	j := zvJobOf(mode, []string{name[:len(name)-len(ext)]}, []string{known})
	j.names[0] = name
	j.args.InputFiles[0] = name
	zvW.ents[0].name = zvNoDot(name)
	j.zvJudge(mode, zvPick("out", "", "o"))
}

func zvH_C21_ext()    { zvExtBytes(2) }
func zvH_C21_ext3()   { zvExtBytes(3) }
func zvH_C21_T_ext4() { zvExtBytes(4) }

// Directories and libraries whose whole name is arbitrary.
func zvH_C21_paths() {
	zvNewWorld()
	j := zvJobOf(zvMExe, []string{"main"}, []string{".b"})
	n := vChoice("dirs", 3)
	for i := 0; i < n; i++ {
		j.args.LibraryDirs = append(j.args.LibraryDirs, string(zvBytes("dir", 1+vChoice("len", 2))))
	}
	for i := vChoice("libs", 3-n); i > 0; i-- {
		j.args.Libraries = append(j.args.Libraries, string(zvBytes("lib", 1+vChoice("len", 2))))
	}
	j.zvJudge(zvMExe, "")
}

// The same for longer names.
func zvH_C21_words() {
	zvNewWorld()
	j := zvJobOf(zvMExe, []string{"main"}, []string{".b"})
	if vBool("dir") {
		j.args.LibraryDirs = append(j.args.LibraryDirs, string(zvBytes("dir", 3+vChoice("len", 6))))
	} else {
		j.args.Libraries = append(j.args.Libraries, string(zvBytes("lib", 3+vChoice("len", 6))))
	}
	j.zvJudge(zvMExe, "")
}

// What an earlier run on other contents left behind makes no difference.
func zvH_C21_again() {
	mode := vChoice("mode", 4)
	n := 1 + vChoice("inputs", 2)
	stems, exts := []string{"a", "d/x"}[:n], []string{".b", ".b"}[:n]
	out := ""
	if (n == 1 || mode == zvMExe) && vBool("-o") {
		out = "o"
	}
	w := zvNewWorld()
	j := zvJobOf(mode, stems, exts)
	j.args.OutputFile = out
	j.args.SaveTemps = vBool("the earlier run keeps its intermediate files")
	vAssert(Compile(j.args) == nil, "an acceptable command line fails")
	left := w.ents
	w = zvNewWorld()
	zvSrcs[0], zvSrcs[1] = zvSrcs[1], zvSrcs[0]
	defer func() { zvSrcs[0], zvSrcs[1] = zvSrcs[1], zvSrcs[0] }()
	j = zvJobOf(mode, stems, exts)
	for _, e := range left {
		if e.there && w.find(e.name) == nil {
			w.add(e.name, e.data).isDir = e.isDir
		}
	}
	j.args.SaveTemps = vBool("save-temps")
	j.zvJudge(mode, out)
}
