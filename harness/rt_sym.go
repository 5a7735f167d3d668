package main

import (
	"os"
	"os/exec"
)

// In the symbolic run the files and commands of the program are the real types; the calls on them are redirected to the
// functions in zvdrv.go. In the native replay gosym rewrites the sources to use stand-ins of the same shape.
type zvFile = os.File
type zvCmd = exec.Cmd

func zvSetArgs(a []string) { os.Args = a }

// How many bytes went to the standard output (1) and the standard error output (2).
var zvOut [3]int

func zvCapture()              { zvOut = [3]int{} }
func zvOutput(stream int) int { return zvOut[stream] }
func zvPrinted(stream, n int) { zvOut[stream] += n }

func zvStdWrite(f *zvFile, n int) {
	if f == os.Stdout {
		zvOut[1] += n
	}
	if f == os.Stderr {
		zvOut[2] += n
	}
}

// Declarations of the intrinsics that gosym implements. The bodies are never executed.

func vByte(name string) byte          { panic("intrinsic") }
func vI64(name string) int64          { panic("intrinsic") }
func vBool(name string) bool          { panic("intrinsic") }
func vChoice(name string, n int) int  { panic("intrinsic") }
func vAssume(c bool)                  { panic("intrinsic") }
func vAssert(c bool, msg string)      { panic("intrinsic") }
func vEq(a, b int64, msg string)      { panic("intrinsic") }
func vB2I(c bool) int64               { panic("intrinsic") }
func vReach(tag string)               { panic("intrinsic") }
func vNote(k, v string)               { panic("intrinsic") }
func vSymbolic() bool                 { panic("intrinsic") }
func vIsConst(v int64) bool           { panic("intrinsic") }
func vBudget(times int)               { panic("intrinsic") }
func vBase(v int64) int64             { panic("intrinsic") }
func vThorough() bool                 { panic("intrinsic") }
func vMapOrder(on bool)               { panic("intrinsic") }
func vHooks(on bool)                  { panic("intrinsic") }
func vConc(v int64) int64             { panic("intrinsic") }
func vTrace(s string)                 { panic("intrinsic") }
func vCatchExit(f func()) (bool, int) { panic("intrinsic") }
