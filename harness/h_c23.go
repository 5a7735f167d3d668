package main

import "strconv"

// C23: the command line.

// zvCLI is a command line under construction and what it should mean.
type zvCLI struct {
	long bool // values also in the long spellings

	argv    []string
	mode    int // zvMExe unless a flag says otherwise
	asm     bool
	obj     bool
	ir      bool
	opts    *CompileOptions
	out     string
	stems   []string
	exts    []string
	badO    bool
	pending []string
	verbose bool
}

// zvMain runs main and returns its exit status.
func zvMain(argv []string) int {
	zvSetArgs(argv)
	for i, a := range argv {
		vNote("arg "+strconv.Itoa(i), a)
	}
	zvCapture()
	exited, code := vCatchExit(main)
	if !exited {
		return 0
	}
	return code
}

// zvRunCLI runs the command line and compares the run with what the flags mean.
func (c *zvCLI) zvRunCLI() {
	w := zvW
	mode := zvMExe
	if c.ir {
		mode = zvMIR
	}
	if c.obj {
		mode = zvMObj
	}
	if c.asm {
		mode = zvMAsm
	}
	j := zvJobOf(mode, c.stems, c.exts)
	opts := j.args
	opts.Optimize = c.opts.Optimize
	opts.DebugInfo = c.opts.DebugInfo
	opts.SaveTemps = c.opts.SaveTemps
	opts.Libraries = c.opts.Libraries
	opts.LibraryDirs = append(zvDefaultDirs(), c.opts.LibraryDirs...)
	code := zvMain(c.argv)
	vAssert(w.wild == "", w.wild)
	if c.badO || j.bad || c.out != "" && len(c.stems) != 1 && mode != zvMExe {
		vReach("rejected")
		vAssert(code == 1, "a command line that is to be rejected does not exit with status 1")
		vAssert(zvOutput(2) > 0, "a command line is rejected without a message")
		vAssert(len(w.runs) == 0, "clang is run although the command line is rejected")
		for _, e := range w.ents {
			vAssert(e.made == 0 && e.there, "a rejected command line changes files")
		}
		return
	}
	vReach("accepted")
	vAssert(code == 0, "an acceptable command line does not exit with status 0")
	vAssert(c.verbose || zvOutput(1) == 0, "something is written to the standard output without --verbose")
	vAssert(!c.verbose || zvOutput(1)+zvOutput(2) > 0, "--verbose writes nothing")
	var outs []string
	want := func(n string, idx ...int) {
		e := w.find(n)
		vAssert(e != nil, "an output is not where it is documented to be")
		vNote("got", e.data)
		vNote("want", j.zvWant(mode, opts, idx...))
		vAssert(e.data == j.zvWant(mode, opts, idx...), "the command line does not have its documented meaning")
		outs = append(outs, zvNoDot(n))
	}
	if mode == zvMExe {
		all := make([]int, len(c.stems))
		for i := range all {
			all[i] = i
		}
		n := c.out
		if n == "" {
			n = zvStem(c.stems[0] + c.exts[0])
		}
		want(n, all...)
	} else {
		for i := range c.stems {
			n := c.out
			if n == "" {
				n = zvStem(c.stems[i]+c.exts[i]) + []string{".ll", ".s", ".o"}[mode]
			}
			want(n, i)
		}
	}
	kept := 0
	for _, e := range w.ents {
		if !e.there || e.made == 0 {
			continue
		}
		final := false
		for _, n := range outs {
			if e.name == n {
				final = true
			}
		}
		if !final {
			kept++
		}
	}
	src := 0
	for _, x := range c.exts {
		if x == ".b" && mode != zvMIR {
			src++
		}
	}
	if opts.SaveTemps {
		vAssert(kept == src, "--save-temps does not keep one intermediate file for each source")
	} else {
		vAssert(kept == 0, "a file is left behind that was not asked for")
	}
}

var zvDefDirs = []string{"/home/u/.local/lib", "/opt/homebrew/lib", "/opt/local/lib", "/usr/local/lib", "/usr/lib"}

// zvDefaultDirs are the documented directories that exist.
func zvDefaultDirs() (r []string) {
	for _, d := range zvDefDirs {
		if e := zvW.find(d); e != nil && e.isDir {
			r = append(r, d)
		}
	}
	return
}

func zvNewCLI() *zvCLI {
	w := zvNewWorld()
	w.env = map[string]string{"HOME": "/home/u"}
	return &zvCLI{argv: []string{"blang"}, opts: NewCompileOptions("blang", nil)}
}

func (c *zvCLI) file(stem, ext string) {
	c.stems = append(c.stems, stem)
	c.exts = append(c.exts, ext)
	c.argv = append(c.argv, stem+ext)
}

func (c *zvCLI) add(a ...string) { c.argv = append(c.argv, a...) }

// option appends an option with a value, in one of the spellings the option parser documents.
func (c *zvCLI) option(short, long, v string) {
	n := 2
	if c.long {
		n = 4
	}
	switch vChoice("spelling", n) {
	case 0:
		c.add(short + v)
	case 1:
		c.add(short, v)
	case 2:
		c.add(long, v)
	case 3:
		c.add(long + "=" + v)
	}
}

// zvFlagOf appends one option in one of its spellings.
func (c *zvCLI) zvFlagOf(k int) {
	switch k {
	case 0:
		c.add(zvPick("spelling", "-S", "--assemble"))
		c.asm = true
	case 1:
		c.add(zvPick("spelling", "-c", "--compile"))
		c.obj = true
	case 2:
		c.add("--emit-llvm")
		c.ir = true
	case 3:
		c.add(zvPick("spelling", "-g", "--debug"))
		c.opts.DebugInfo = true
	case 4:
		c.add("--save-temps")
		c.opts.SaveTemps = true
	case 5:
		c.add(zvPick("spelling", "-v", "--verbose"))
		c.verbose = true
	case 6:
		b := vByte("level")
		vAssume(b != '=')
		vAssume(b != 0)
		c.option("-O", "--optimize", string([]byte{b}))
		c.opts.Optimize = 0
		c.badO = true
		for i := 0; i < 4; i++ {
			if b == byte('0'+i) {
				c.opts.Optimize = i
				c.badO = false
			}
		}
	case 7:
		n := zvPick("name", "out", "d/e.f")
		c.option("-o", "--output", n)
		c.out = n
	case 8:
		n := "l" + strconv.Itoa(len(c.opts.Libraries)/2)
		c.option("-l", "--library", n)
		c.opts.Libraries = append(c.opts.Libraries, n)
	case 9:
		n := "dir/" + strconv.Itoa(len(c.opts.LibraryDirs))
		c.option("-L", "--library-dir", n)
		c.opts.LibraryDirs = append(c.opts.LibraryDirs, n)
	}
}

// Without -O, clang gets no -O option.
func (c *zvCLI) defaults() { c.opts.Optimize = 0 }

// One input, two options anywhere.
func zvH_C23_flags() {
	c := zvNewCLI()
	c.defaults()
	pos := vChoice("input at", 3)
	for i := 0; i < 2; i++ {
		if pos == i {
			c.file("a", ".b")
		}
		c.zvFlagOf(vChoice("flag", 10))
	}
	if pos == 2 {
		c.file("a", ".b")
	}
	c.zvRunCLI()
}

// Any subset of the options.
func zvH_C23_subsets() {
	c := zvNewCLI()
	c.defaults()
	in := vBool("input first")
	if in {
		c.file("a", ".b")
	}
	for k, a := range []string{"-S", "-c", "--emit-llvm", "-g", "--save-temps", "-v", "-O2", "-oout", "-lm", "-Ldir"} {
		if !vBool(a) {
			continue
		}
		c.add(a)
		switch k {
		case 0:
			c.asm = true
		case 1:
			c.obj = true
		case 2:
			c.ir = true
		case 3:
			c.opts.DebugInfo = true
		case 4:
			c.opts.SaveTemps = true
		case 5:
			c.verbose = true
		case 6:
			c.opts.Optimize = 2
		case 7:
			c.out = "out"
		case 8:
			c.opts.Libraries = []string{"m"}
		case 9:
			c.opts.LibraryDirs = []string{"dir"}
		}
	}
	if !in {
		c.file("a", ".b")
	}
	c.zvRunCLI()
}

// One option in every spelling, before or after the input.
func zvH_C23_spelling() {
	c := zvNewCLI()
	c.defaults()
	c.long = true
	after := vBool("after")
	if after {
		c.file("a", ".b")
	}
	c.zvFlagOf(vChoice("flag", 10))
	if !after {
		c.file("a", ".b")
	}
	c.zvRunCLI()
}

func zvH_C23_T_flags() {
	c := zvNewCLI()
	c.defaults()
	pos := vChoice("input at", 4)
	for i := 0; i < 3; i++ {
		if pos == i {
			c.file("a", ".b")
		}
		c.zvFlagOf(vChoice("flag", 10))
	}
	if pos == 3 {
		c.file("a", ".b")
	}
	c.zvRunCLI()
}

// Several inputs of every kind with one option between them.
func zvH_C23_inputs() {
	c := zvNewCLI()
	c.defaults()
	n := 1 + vChoice("inputs", 2)
	pos := vChoice("option at", n+1)
	for i := 0; i <= n; i++ {
		if pos == i {
			c.zvFlagOf(vChoice("flag", 10))
		}
		if i < n {
			c.file([]string{"x/a", "b.c"}[i], zvExts[vChoice("ext", len(zvExts))])
		}
	}
	c.zvRunCLI()
}

// The three mode flags in every combination and order.
func zvH_C23_modes() {
	c := zvNewCLI()
	c.defaults()
	for i := vChoice("flags", 4); i > 0; i-- {
		c.zvFlagOf(vChoice("flag", 3))
	}
	c.file("a", zvPick("ext", ".b", ".ll", ".s"))
	for i := vChoice("flags after", 3); i > 0; i-- {
		c.zvFlagOf(vChoice("flag", 3))
	}
	c.zvRunCLI()
}

// Libraries and directories: many, interleaved with the inputs, with arbitrary bytes in their names.
func zvH_C23_libs() {
	c := zvNewCLI()
	c.defaults()
	name := func() string {
		b := zvBytes("name", 1)
		vAssume(b[0] != '=')
		vAssume(b[0] != ',')
		vAssume(b[0] != '"')
		vAssume(b[0] != '\r')
		vAssume(b[0] != '\n')
		vAssume(b[0] != 0)
		return string(b) + "m" // two may coincide
	}
	in := 0
	for i := 0; i < 4; i++ {
		switch vChoice("what", 3) {
		case 0:
			n := name()
			c.add("-l" + n)
			c.opts.Libraries = append(c.opts.Libraries, n)
		case 1:
			n := name()
			c.add("-L", n)
			c.opts.LibraryDirs = append(c.opts.LibraryDirs, n)
		case 2:
			if in < 2 {
				c.file([]string{"a", "b"}[in], []string{".b", ".o"}[in])
				in++
			}
		}
	}
	c.file("z", ".a")
	c.zvRunCLI()
}

// The default directories: each exists, does not exist, or is no directory; HOME may be unset.
func zvH_C23_dirs() {
	c := zvNewCLI()
	c.defaults()
	for i, d := range zvDefDirs {
		if vBool("exists") {
			e := zvW.add(d, "")
			e.isDir = true
			if i%2 == 0 && vBool("is a plain file") {
				e.isDir = false
			}
		}
	}
	// directories that are not searched
	for _, d := range []string{"lib", ".local", ".local/lib", "/.local/lib", "/home/u/lib", "/home/u/.local", "/home/.local/lib", "/root/.local/lib", "/lib", "/usr", "/usr/local", "/opt/homebrew", "/opt/local", "/opt/lib", "~/.local/lib"} {
		zvW.add(d, "").isDir = true
	}
	c.file("a", ".b")
	if vBool("-L") {
		c.zvFlagOf(9)
	}
	if vBool("no HOME") {
		if vBool("empty HOME") {
			zvW.env["HOME"] = ""
		} else {
			delete(zvW.env, "HOME")
		}
		if e := zvW.find(zvDefDirs[0]); e != nil {
			e.isDir = false
		}
	}
	c.zvRunCLI()
}

// -O with a value of two or three bytes is rejected, whatever they are.
func zvH_C23_level() {
	c := zvNewCLI()
	c.defaults()
	b := zvBytes("level", 2+vChoice("more", 2))
	vAssume(b[0] != '=')
	if vBool("joined") {
		c.add("-O" + string(b))
	} else {
		c.add("-O", string(b))
	}
	c.file("a", ".b")
	c.badO = true
	c.zvRunCLI()
}

// Inputs that are missing, have another extension, do not compile, or make clang fail: status 1.
func zvH_C23_fail() {
	c := zvNewCLI()
	w := zvW
	if vBool("mode flag") {
		c.zvFlagOf(vChoice("flag", 3))
	}
	opt := zvPick("option", "", "--save-temps", "-g", "-v", "-O2", "-lm")
	if opt != "" {
		c.add(opt)
	}
	n := vChoice("inputs", 4)
	k := 0
	what := 0
	if n > 0 {
		k = vChoice("which", n)
		what = 1 + vChoice("what", 5)
	}
	for i := 0; i < n; i++ {
		name := []string{"a.b", "d/x.b", "c.d.b"}[i]
		src := zvSrcs[i]
		if i == k {
			switch what {
			case 1: // missing
				c.add(name)
				continue
			case 2: // an extension with arbitrary bytes
				b := zvBytes("ext", 2)
				vAssume(b[0] != 0)
				vAssume(b[1] != 0)
				vAssume(b[1] != '/')
				name = "y." + string(b)
				e := zvExtOf(name)
				for _, x := range zvExts {
					vAssume(e != x)
				}
			case 5: // missing, of another kind
				c.add(zvPick("name", "m.o", "m.ll", "m.s", "m.a"))
				continue
			case 3: // malformed
				src = "main(){return(x=;}"
			}
		}
		w.add(name, src)
		c.add(name)
	}
	if what == 4 {
		if c.ir && !c.asm && !c.obj {
			w.kinds = "oc"
		} else {
			w.kinds = "k"
		}
		w.maxF = 1
	}
	code := zvMain(c.argv)
	if what == 4 && w.nF == 0 {
		vAssert(code == 0, "an acceptable command line does not exit with status 0")
		return
	}
	vReach("failed")
	vAssert(zvOutput(1)+zvOutput(2) > 0, "a compilation fails without a message")
	vAssert(code == 1, "a failed compilation does not exit with status 1")
	if n == 0 || what == 1 || what == 2 || what == 5 {
		vAssert(len(w.runs) == 0, "clang is run although the command line is rejected")
		for _, e := range w.ents {
			vAssert(e.made == 0 && e.there, "a rejected command line changes files")
		}
	}
	if what == 3 && !c.asm && !c.obj {
		vAssert(len(w.runs) == 0, "clang is run although a source does not compile")
	}
	if what == 3 && (c.asm || c.obj) {
		vAssert(len(w.runs) <= k, "clang is run for a source that does not compile")
	}
	for _, e := range w.ents {
		if e.made == 1 && !(c.ir && !c.asm && !c.obj) {
			vAssert(!e.there || opt == "--save-temps", "an intermediate file is left behind")
		}
	}
}

// Help and version wherever they stand, no arguments, no inputs, unknown options: nothing is compiled.
func zvH_C23_info() {
	c := zvNewCLI()
	what := vChoice("what", 6)
	special := ""
	switch what {
	case 0:
		special = zvPick("spelling", "-V", "--version", "--version=true")
	case 1:
		special = zvPick("spelling", "-h", "--help")
	case 2:
		special = zvPick("spelling", "--nosuch", "-Q", "--outputs=x", "-cQ", "--emit-llvm=maybe", "-", "-Z1")
	case 3: // inputs are missing
	case 4: // no arguments at all
	case 5:
		special = zvPick("lacks a value", "-o", "-O", "-l", "-L", "--output")
	}
	n := 0
	if what != 4 {
		n = 1 + vChoice("more", 2)
	}
	pos := n
	if n > 0 && what != 5 {
		pos = vChoice("special at", n+1)
	}
	for i := 0; i <= n; i++ {
		if i == pos && special != "" {
			c.add(special)
		}
		if i == n {
			break
		}
		k := vChoice("other", 5)
		if what == 3 {
			vAssume(k != 4)
		}
		switch k {
		case 0:
			c.add("-v")
		case 1:
			c.add("-c")
		case 2:
			c.add("-o", "out")
		case 3:
			c.add("-O3")
		case 4:
			zvW.add("a"+strconv.Itoa(i)+".b", zvSrcs[0])
			c.add("a" + strconv.Itoa(i) + ".b")
		}
	}
	code := zvMain(c.argv)
	vReach("info")
	if what < 2 {
		vAssert(code == 0, "help or version does not exit with status 0")
	} else {
		vAssert(code != 0, "a command line that says nothing to do exits with status 0")
	}
	if what == 0 {
		vAssert(zvOutput(1) > 0, "the version is not printed")
	} else {
		vAssert(zvOutput(1)+zvOutput(2) > 0, "nothing is printed")
	}
	vAssert(len(zvW.runs) == 0, "clang is run")
	for _, e := range zvW.ents {
		vAssert(e.made == 0 && e.there, "files are changed")
	}
}
