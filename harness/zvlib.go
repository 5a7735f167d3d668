package main

import (
	"strings"

	"github.com/llir/llvm/ir"
)

// zvCompile runs the real front end on a source text.
func zvCompile(src string) (*ir.Module, error) {
	args := NewCompileOptions("blang", []string{"t.b"})
	l := NewLexer(args, strings.NewReader(src))
	c := NewCompiler(args)
	if err := ParseDeclarations(l, c); err != nil {
		return nil, err
	}
	return c.GetModule(), nil
}

// zvDigits makes n symbolic decimal digits.
func zvDigits(name string, n int) []byte {
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		b := vByte(name)
		vAssume(b-'0' <= 9)
		out[i] = b
	}
	return out
}

// zvNumVal is the value of a literal by the language definition.
func zvNumVal(d []byte) int64 {
	base := int64(10)
	if d[0] == '0' {
		base = 8
	}
	var v int64
	for _, c := range d {
		v = v*base + int64(c-'0')
	}
	return v
}
