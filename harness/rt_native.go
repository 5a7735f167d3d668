package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"testing"

	"github.com/spf13/pflag"
)

// Native implementation of the intrinsics: inputs come from a recorded counterexample.

type zvIn struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  int64  `json:"val"`
}

type zvCase struct {
	H      string `json:"harness"`
	Inputs []zvIn `json:"inputs"`
}

var (
	zvCur zvCase
	zvPos int
)

type zvStop struct{ kind, msg string }

func zvNext(kind string) int64 {
	if zvPos >= len(zvCur.Inputs) {
		zvPos++
		return 0
	}
	in := zvCur.Inputs[zvPos]
	if in.Kind != kind {
		panic(zvStop{"ASSUME", fmt.Sprintf("input %d (%s) is %s, wanted %s", zvPos, in.Name, in.Kind, kind)})
	}
	zvPos++
	return in.Val
}

func vByte(name string) byte { return byte(zvNext("byte")) }
func vI64(name string) int64 { return zvNext("i64") }
func vBool(name string) bool { return zvNext("bool") != 0 }
func vChoice(name string, n int) int {
	if n <= 1 {
		zvNext("choice")
		return 0
	}
	return int(zvNext("choice"))
}
func vAssume(c bool) {
	if !c {
		panic(zvStop{"ASSUME", ""})
	}
}
func vAssert(c bool, msg string) {
	if !c {
		panic(zvStop{"FAIL", msg})
	}
}
func vEq(a, b int64, msg string) {
	if a != b {
		panic(zvStop{"FAIL", fmt.Sprintf("%s: %d != %d", msg, a, b)})
	}
}
func vB2I(c bool) int64 {
	if c {
		return 1
	}
	return 0
}
func vReach(tag string)     {}
func vNote(k, v string)     { fmt.Fprintf(zvReal, "note %s = %q\n", k, v) }
func vSymbolic() bool       { return false }
func vBudget(times int)     {}
func vBase(v int64) int64   { return v }
func vIsConst(v int64) bool { return true }
func vThorough() bool       { return os.Getenv("ZV_TIER") == "thorough" }
func vMapOrder(on bool)     {}
func vHooks(on bool)        {}
func vConc(v int64) int64   { return v }
func vTrace(s string)       {}

var zvReal = os.Stdout

type zvExit struct{ code int }

func vCatchExit(f func()) (exited bool, code int) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(zvExit); ok {
				exited, code = true, e.code
				return
			}
			if _, ok := r.(runtime.Error); !ok {
				if _, ok := r.(error); ok { // a bad flag: pflag would exit
					exited, code = true, 2
					return
				}
			}
			panic(r)
		}
	}()
	f()
	return false, 0
}

// The standard outputs are captured in files that have no name.
func zvCapture() {
	for _, p := range []**os.File{&os.Stdout, &os.Stderr} {
		f, err := os.CreateTemp("", "zvout")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		*p = f
	}
}

func zvOutput(stream int) int {
	st, err := [3]*os.File{nil, os.Stdout, os.Stderr}[stream].Stat()
	if err != nil {
		panic(err)
	}
	return int(st.Size())
}

func zvStdWrite(f *zvFile, n int) {}

func zvSetArgs(a []string) {
	os.Args = a
	pflag.CommandLine = pflag.NewFlagSet(a[0], pflag.PanicOnError)
}

// Stand-ins that the rewritten sources use instead of os and os/exec.
type zvFile struct{ _ int }

func (f *zvFile) Read(p []byte) (int, error)        { return zvFileRead(f, p) }
func (f *zvFile) Write(p []byte) (int, error)       { return zvFileWrite(f, p) }
func (f *zvFile) WriteString(s string) (int, error) { return zvFileWriteString(f, s) }
func (f *zvFile) Close() error                      { return zvFileClose(f) }
func (f *zvFile) Name() string                      { return zvFileName(f) }
func (f *zvFile) Sync() error                       { return zvFileSync(f) }

func (f *zvFile) ReadFrom(r io.Reader) (int64, error) { return zvFileReadFrom(f, r) }
func (f *zvFile) WriteTo(w io.Writer) (int64, error)  { return zvFileWriteTo(f, w) }
func (f *zvFile) Stat() (os.FileInfo, error)          { return zvFileStat(f) }
func (f *zvFile) Seek(o int64, w int) (int64, error)  { return zvFileSeek(f, o, w) }

type zvCmd struct {
	Path           string
	Args, Env      []string
	Dir            string
	Stdin          io.Reader
	Stdout, Stderr io.Writer
}

func (c *zvCmd) Run() error                      { return zvCmdRun(c) }
func (c *zvCmd) Start() error                    { return zvCmdStart(c) }
func (c *zvCmd) Wait() error                     { return zvCmdWait(c) }
func (c *zvCmd) Output() ([]byte, error)         { return zvCmdOutput(c) }
func (c *zvCmd) CombinedOutput() ([]byte, error) { return zvCmdOutput(c) }
func (c *zvCmd) String() string                  { return zvCmdString(c) }

func zvOsExit(code int) { panic(zvExit{code}) }

func TestZvReplay(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("ZV_REPLAY"))
	if err != nil {
		t.Skip("no replay")
	}
	if err := json.Unmarshal(b, &zvCur); err != nil {
		t.Fatal(err)
	}
	h := zvHarnesses[zvCur.H]
	if h == nil {
		fmt.Fprintln(zvReal, "ZV-ASSUME no such harness")
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(zvStop); ok {
				fmt.Fprintf(zvReal, "ZV-%s: %s\n", s.kind, s.msg)
				return
			}
			fmt.Fprintf(zvReal, "ZV-FAIL: panic: %v\n", r)
		}
	}()
	h()
	fmt.Fprintln(zvReal, "ZV-PASS")
}
