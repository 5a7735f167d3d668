package main

import (
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"
)

// A model of the driver's environment: files, standard library calls on them, and clang. Every call may be made to fail.

type zvEnt struct {
	name    string
	data    string
	made    int  // 0: there before the run, 1: created by blang, 2: created by clang
	there   bool // exists now
	changed bool
	closed  bool // made==1: was written and closed without an error
	isDir   bool
}

type zvHnd struct {
	f    *zvFile
	e    *zvEnt
	name string
	pos  int
	wr   bool
	open bool
	dead bool // reads fail
	bad  bool // a write failed
}

// one execution of clang
type zvClang struct {
	args []string
	mode string // "S", "c" or "" (link)
	opt  string
	g    bool
	out  string
	ins  []string // inputs and -l options in order
	dirs []string
	rest []string // every other option
	bad  string
	ok   bool
}

type zvWorld struct {
	ents    []*zvEnt
	hnds    []*zvHnd
	runs    []*zvClang
	pend    []*zvCmd
	pendErr []error
	temps   int
	removed []string
	wild    string // an operation that must not happen
	maxF    int    // how many faults may be injected
	nF      int
	kinds   string // letters of the steps that may fail
	fault   string
	readAt  int64 // the read that fails
	reads   int
	env     map[string]string
}

var zvW *zvWorld

var zvEIO = errors.New("input/output error")
var zvClosed = errors.New("file already closed")
var zvENOENT = fs.ErrNotExist

func zvNewWorld() *zvWorld {
	zvW = &zvWorld{readAt: -1}
	return zvW
}

func (w *zvWorld) find(name string) *zvEnt {
	name = zvNoDot(name)
	for _, e := range w.ents {
		if e.there && e.name == name {
			return e
		}
	}
	return nil
}

// zvNoDot drops a leading "./".
func zvNoDot(name string) string {
	for len(name) > 2 && name[0] == '.' && name[1] == '/' && name[2] != '/' {
		name = name[2:]
	}
	return name
}

func (w *zvWorld) add(name, data string) *zvEnt {
	e := &zvEnt{name: zvNoDot(name), data: data, there: true}
	w.ents = append(w.ents, e)
	return e
}

// zvFailAt decides whether this step fails.
func zvFailAt(kind string) bool {
	w := zvW
	if w == nil || w.nF >= w.maxF || !strings.Contains(w.kinds, kind[:1]) {
		return false
	}
	if vBool("fault " + kind) {
		w.nF++
		w.fault += kind + ";"
		vNote("fault", w.fault)
		return true
	}
	return false
}

func (w *zvWorld) handle(f *zvFile) *zvHnd {
	for _, h := range w.hnds {
		if h.f == f {
			return h
		}
	}
	return nil
}

func zvOsOpen(name string) (*zvFile, error) {
	w := zvW
	e := w.find(name)
	if e == nil {
		return nil, zvENOENT
	}
	if zvFailAt("open") {
		return nil, zvEIO
	}
	h := &zvHnd{f: new(zvFile), e: e, name: name, open: true}
	w.hnds = append(w.hnds, h)
	return h.f, nil
}

func zvOsCreate(name string) (*zvFile, error) {
	w := zvW
	if zvFailAt("create") {
		return nil, zvEIO
	}
	e := w.find(name)
	if e != nil {
		e.changed = true
	} else {
		e = &zvEnt{name: zvNoDot(name), made: 1, there: true}
		w.ents = append(w.ents, e)
	}
	e.data = ""
	h := &zvHnd{f: new(zvFile), e: e, name: name, wr: true, open: true}
	w.hnds = append(w.hnds, h)
	return h.f, nil
}

func zvOsOpenFile(name string, flag int, perm os.FileMode) (*zvFile, error) {
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return zvOsOpen(name)
	}
	w := zvW
	e := w.find(name)
	if e == nil && flag&os.O_CREATE == 0 {
		return nil, zvENOENT
	}
	if e != nil && flag&os.O_EXCL != 0 {
		return nil, errors.New("file exists")
	}
	if flag&os.O_TRUNC == 0 && e != nil {
		w.wild = "file opened without O_TRUNC"
	}
	return zvOsCreate(name)
}

func zvOsReadFile(name string) ([]byte, error) {
	f, err := zvOsOpen(name)
	if err != nil {
		return nil, err
	}
	if zvW.maxF > 0 && zvW.readAt == 0 {
		zvW.nF++
		return nil, zvEIO
	}
	return []byte(zvW.handle(f).e.data), nil
}

func zvOsWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := zvOsCreate(name)
	if err != nil {
		return err
	}
	if _, err := zvFileWrite(f, data); err != nil {
		return err
	}
	return zvFileClose(f)
}

func zvOsRemove(name string) error {
	w := zvW
	e := w.find(name)
	if e == nil {
		return zvENOENT
	}
	if e.made == 0 && !e.changed {
		w.wild = "a file that blang did not create is removed"
		vNote("removed", name)
	}
	e.there = false
	w.removed = append(w.removed, name)
	return nil
}

func zvOsRemoveAll(name string) error {
	e := zvW.find(name)
	zvOsRemove(name)
	if e != nil && e.isDir {
		for _, f := range zvW.ents {
			if f.there && strings.HasPrefix(f.name, e.name+"/") {
				zvOsRemove(f.name)
			}
		}
	}
	return nil
}

func zvOsRename(from, to string) error {
	w := zvW
	e := w.find(from)
	if e == nil {
		return zvENOENT
	}
	if e.made == 0 {
		w.wild = "a file that blang did not create is renamed"
	}
	if zvFailAt("name") {
		return zvEIO
	}
	if o := w.find(to); o != nil && o != e {
		if o.made == 0 {
			o.changed = true
		}
		o.there = false
	}
	e.name = zvNoDot(to)
	return nil
}

type zvInfo struct{ e *zvEnt }

func (i zvInfo) Name() string { return i.e.name }
func (i zvInfo) Size() int64  { return int64(len(i.e.data)) }
func (i zvInfo) Mode() os.FileMode {
	if i.e.isDir {
		return os.ModeDir
	}
	return 0
}

func (i zvInfo) ModTime() time.Time { return time.Time{} }
func (i zvInfo) IsDir() bool        { return i.e.isDir }
func (i zvInfo) Sys() any           { return nil }

func zvOsStat(name string) (os.FileInfo, error) {
	e := zvW.find(name)
	if e == nil {
		return nil, zvENOENT
	}
	return zvInfo{e}, nil
}

func zvOsGetenv(name string) string {
	if zvW == nil {
		return ""
	}
	return zvW.env[name]
}

func zvOsHome() (string, error) {
	h := zvOsGetenv("HOME")
	if h == "" {
		return "", errors.New("$HOME is not defined")
	}
	return h, nil
}

func zvFileRead(f *zvFile, p []byte) (int, error) {
	h := zvW.handle(f)
	if h == nil || !h.open || h.wr {
		return 0, zvClosed
	}
	if h.pos >= len(h.e.data) {
		return 0, io.EOF
	}
	zvW.reads++
	if h.dead {
		return 0, zvEIO
	}
	if zvW.readAt == int64(zvW.reads-1) && zvW.nF < zvW.maxF {
		// this file cannot be read from here on
		h.dead = true
		zvW.nF++
		zvW.fault += "read;"
		vNote("fault", zvW.fault)
		return 0, zvEIO
	}
	n := copy(p, h.e.data[h.pos:])
	h.pos += n
	return n, nil
}

func zvFileWrite(f *zvFile, p []byte) (int, error) { return zvFileWriteString(f, string(p)) }

func zvFileWriteString(f *zvFile, s string) (int, error) {
	h := zvW.handle(f)
	if h == nil {
		zvStdWrite(f, len(s))
		return len(s), nil
	}
	if !h.open || !h.wr {
		return 0, zvClosed
	}
	if zvFailAt("write") {
		h.bad = true
		n := len(s) / 2
		h.e.data += s[:n]
		return n, zvEIO
	}
	h.e.data += s
	return len(s), nil
}

func zvFileClose(f *zvFile) error {
	h := zvW.handle(f)
	if h == nil || !h.open {
		return zvClosed
	}
	h.open = false
	if h.wr {
		if zvFailAt("shut") {
			return zvEIO
		}
		h.e.closed = !h.bad
	}
	return nil
}

func zvFileName(f *zvFile) string {
	if h := zvW.handle(f); h != nil {
		return h.name
	}
	return ""
}

func zvFileSync(f *zvFile) error {
	if zvFailAt("write") {
		return zvEIO
	}
	return nil
}

func zvFileReadFrom(f *zvFile, r io.Reader) (n int64, err error) {
	buf := make([]byte, 1<<16)
	for {
		k, err := r.Read(buf)
		if k > 0 {
			w, werr := zvFileWrite(f, buf[:k])
			n += int64(w)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func zvFileWriteTo(f *zvFile, w io.Writer) (n int64, err error) {
	buf := make([]byte, 1<<16)
	for {
		k, err := zvFileRead(f, buf)
		if k > 0 {
			c, werr := w.Write(buf[:k])
			n += int64(c)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func zvFileStat(f *zvFile) (os.FileInfo, error) {
	if h := zvW.handle(f); h != nil {
		return zvInfo{h.e}, nil
	}
	return nil, zvClosed
}

func zvFileSeek(f *zvFile, off int64, whence int) (int64, error) {
	h := zvW.handle(f)
	if h == nil || !h.open || h.wr || whence != io.SeekStart {
		return 0, zvClosed
	}
	h.pos = int(off)
	return off, nil
}

func zvOsLookupEnv(name string) (string, bool) {
	if zvW == nil {
		return "", false
	}
	v, ok := zvW.env[name]
	return v, ok
}

func zvOsMkdir(name string, perm os.FileMode) error { return nil }

func (w *zvWorld) temp(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	a, b := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		a, b = pattern[:i], pattern[i+1:]
	}
	w.temps++
	return dir + "/" + a + "zvtmp" + string(rune('0'+w.temps)) + b
}

func zvOsCreateTemp(dir, pattern string) (*zvFile, error) { return zvOsCreate(zvW.temp(dir, pattern)) }

func zvOsMkdirTemp(dir, pattern string) (string, error) {
	n := zvW.temp(dir, pattern)
	zvW.ents = append(zvW.ents, &zvEnt{name: n, made: 1, there: true, isDir: true, closed: true})
	return n, nil
}

func zvOsTempDir() string { return "/tmp" }

func zvOsGetwd() (string, error) { return "/zvcwd", nil }

func zvCommandContext(ctx context.Context, name string, arg ...string) *zvCmd {
	return zvCommand(name, arg...)
}

// zvCmdStart runs the command to its end; Wait reports how it ended.
func zvCmdStart(c *zvCmd) error {
	err := zvCmdRun(c)
	if err == zvENOENT {
		return err
	}
	zvW.pend = append(zvW.pend, c)
	zvW.pendErr = append(zvW.pendErr, err)
	return nil
}

func zvCmdWait(c *zvCmd) error {
	for i, p := range zvW.pend {
		if p == c {
			return zvW.pendErr[i]
		}
	}
	return errors.New("not started")
}

func zvLookPath(file string) (string, error) { return "/usr/bin/" + file, nil }

func zvCommand(name string, arg ...string) *zvCmd {
	c := new(zvCmd)
	c.Path = name
	c.Args = append([]string{name}, arg...)
	return c
}

func zvCmdString(c *zvCmd) string { return strings.Join(c.Args, " ") }

func zvCmdOutput(c *zvCmd) ([]byte, error) { return nil, zvCmdRun(c) }

// zvClangArgs reads clang's arguments.
func zvClangArgs(args []string) *zvClang {
	r := &zvClang{args: args}
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-S" || a == "-c":
			r.mode += a[1:]
		case a == "-g":
			r.g = true
		case a == "-O0" || a == "-O1" || a == "-O2" || a == "-O3":
			r.opt += a[2:]
		case a == "-o":
			if i+1 == len(args) {
				r.bad = "-o without a name"
				break
			}
			i++
			if r.out != "" {
				r.bad = "two -o"
			}
			r.out = args[i]
		case len(a) > 2 && a[0] == '-' && a[1] == 'l':
			r.ins = append(r.ins, a)
		case len(a) > 2 && a[0] == '-' && a[1] == 'L':
			for _, x := range r.ins {
				if len(x) > 2 && x[:2] == "-l" {
					r.bad = "-L after -l"
				}
			}
			r.dirs = append(r.dirs, a[2:])
		case len(a) > 0 && a[0] == '-':
			r.rest = append(r.rest, a)
		default:
			r.ins = append(r.ins, a)
		}
	}
	if r.opt == "0" {
		r.opt = ""
	}
	return r
}

// zvCmdRun models clang: it needs its inputs, may fail, and may leave an unfinished output behind when it does.
func zvCmdRun(c *zvCmd) error {
	w := zvW
	if len(c.Args) == 0 || c.Args[0] != "clang" && !strings.HasSuffix(c.Args[0], "/clang") {
		w.wild = "another program is run: " + strings.Join(c.Args, " ")
		return zvENOENT
	}
	r := zvClangArgs(c.Args[1:])
	w.runs = append(w.runs, r)
	var data string
	for _, in := range r.ins {
		if len(in) > 2 && in[:2] == "-l" {
			data += in + ";"
			continue
		}
		e := w.find(in)
		if e == nil {
			r.bad = "an input of clang does not exist"
			return zvENOENT
		}
		for _, h := range w.hnds {
			if h.e == e && h.wr && h.open {
				r.bad = "an input of clang is not closed yet"
			}
		}
		data += e.data + ";"
	}
	if r.out == "" {
		r.bad = "clang without -o"
		return nil
	}
	o := w.find(r.out)
	if zvFailAt("kclang") {
		if vBool("partial output") {
			if o == nil {
				o = &zvEnt{name: zvNoDot(r.out), made: 2, there: true}
				w.ents = append(w.ents, o)
			}
			o.changed = true
			o.data = "unfinished"
		}
		return errors.New("exit status 1")
	}
	if o == nil {
		o = &zvEnt{name: zvNoDot(r.out), made: 2, there: true}
		w.ents = append(w.ents, o)
	}
	o.changed = true
	o.data = r.head() + data
	r.ok = true
	return nil
}

// head describes what clang was asked to do.
func (r *zvClang) head() string {
	s := "mode=" + r.mode + " O=" + r.opt
	if r.g {
		s += " g"
	}
	if r.mode == "" {
		// the order of these two does not matter
		st, ns := 0, 0
		for _, x := range r.rest {
			switch x {
			case "-static":
				st++
			case "-nostdlib":
				ns++
			default:
				s += " " + x
			}
		}
		if st == 1 && ns == 1 {
			s += " static"
		}
		for _, d := range r.dirs {
			s += " L" + d
		}
	} else {
		for _, x := range r.rest {
			s += " " + x
		}
	}
	return s + ":"
}

// zvText is the module of a source file on its own.
func zvText(src string) (string, bool) {
	args := NewCompileOptions("blang", []string{"f.b"})
	c := NewCompiler(args)
	if err := ParseDeclarations(NewLexer(args, strings.NewReader(src)), c); err != nil {
		return "", false
	}
	return c.GetModule().String(), true
}

// zvStem is the last component of a path without its extension.
func zvStem(name string) string {
	a := 0
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			a = i + 1
		}
	}
	b := len(name)
	for i := a; i < len(name); i++ {
		if name[i] == '.' {
			b = i
		}
	}
	return name[a:b]
}
