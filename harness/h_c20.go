package main

import (
	"strconv"
	"strings"
)

// C20: compilation is deterministic, and files are independent.

// Sources with several of everything; %1 to %3 are names.
var zvDetSrcs = []string{
	"%1(a,b){return(a-b);}%2(c){return(c);}%3(){return(%1(1,2)+%2(3));}",
	"%1(){%2();%3();}%2(){extrn x,y;x=y;}%3(a,b,c){%1();return(\"s\");}",
	"%1 1;%2[3]4,%1;%3;f(a,b){extrn %1,%2,%3;%1=%2[a]+%3;}g(){extrn %3;return(%3);}",
	"f(%1,%2){auto %3,v[2];l:v[0]=%3;if(%1)goto m;switch(%2){case 1:goto l;case 2:%3=\"a\";}m:;}g(%2,%1){return(%1);}",
	"%1(a,b,c){return(a);}%1(a){return(a);}%2(b,c){return(%1(b));}",
	"%1[9]1,2;%1[3];%2 %1;%3(){extrn %1;return(%1[1]);}",
	"f(){%1();%2(1,2);%3(\"s\",'c');return(%1+%2);}%1(a,b){return(\"t\");}%2(x,y){auto z;z=x;}",
	"f(){a:b:c:goto a;goto b;goto c;}g(a){switch(a){case 1:case 2:a++;case 3:;}while(a)a--;return(a?1:2);}",
	"f(){goto %1;goto %2;goto %3;}",
	"f(){auto %1,%2;extrn %3;%1=%2+%3;}g(%1,%2){}h(%1,%2,%3){}",
}

func zvDetSrc(name string) string {
	s := zvDetSrcs[vChoice(name, len(zvDetSrcs))]
	for i, w := range []string{"aa", "bb", "cc"} {
		s = strings.ReplaceAll(s, "%"+strconv.Itoa(i+1), w)
	}
	return s
}

// zvOutcome is everything a compilation yields: the module's text, or the error's.
func zvOutcome(src string) string {
	args := NewCompileOptions("blang", []string{"f.b"})
	c := NewCompiler(args)
	if err := ParseDeclarations(NewLexer(args, strings.NewReader(src)), c); err != nil {
		return "error: " + err.Error()
	}
	return c.GetModule().String()
}

// Go iterates over maps in any order; the outcome is the same for all of them.
func zvH_C20_order() {
	src := zvDetSrc("source")
	zvSameOrder(src)
}

func zvSameOrder(src string) {
	vNote("source", src)
	n := 1
	if !vSymbolic() {
		n = 200
	}
	a := zvOutcome(src)
	for i := 0; i < n; i++ {
		vMapOrder(true)
		b := zvOutcome(src)
		vMapOrder(false)
		vNote("first", a)
		vNote("second", b)
		vAssert(a == b, "the outcome depends on the iteration order of a map")
	}
}

// Names coincide in every way.
func zvH_C20_names() {
	s := zvDetSrcs[vChoice("source", len(zvDetSrcs))]
	var src []byte
	nm := zvBytes("name", 3)
	for _, c := range nm {
		vAssume(c >= 'p')
		vAssume(c <= 'r')
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+1 < len(s) && s[i+1] >= '1' && s[i+1] <= '3' {
			i++
			src = append(src, 'n', nm[s[i]-'1'])
			continue
		}
		src = append(src, s[i])
	}
	zvSameOrder(string(src))
}

// What the process compiled before makes no difference.
func zvH_C20_history() { zvHistory(1) }

func zvH_C20_T_history() { zvHistory(2) }

func zvHistory(n int) {
	src := zvDetSrc("source")
	vNote("source", src)
	a := zvOutcome(src)
	for i := n; i > 0; i-- {
		var other string
		switch vChoice("what", 3) {
		case 0:
			other = zvDetSrc("other")
		case 1:
			other = zvDetSrc("cut")
			other = other[:len(other)-1-vChoice("length", 1+4*n)]
		case 2:
			other = "f(a,b,c){extrn x,y,z;goto l;k:return(\"abc\");}" + string(zvBytes("b", 1)) + " g(){k:;}"
		}
		vNote("before", other)
		zvOutcome(other)
	}
	b := zvOutcome(src)
	vNote("first", a)
	vNote("second", b)
	vAssert(a == b, "the outcome depends on what was compiled before")
}

// Several files on one command line: each gives what it gives on its own.
func zvH_C20_files() { zvFiles(2) }

func zvH_C20_T_files() { zvFiles(3) }

func zvFiles(n int) {
	w := zvNewWorld()
	mode := vChoice("mode", 4)
	args := NewCompileOptions("blang", nil)
	args.OutputType = []OutputType{OutputIR, OutputAssembly, OutputObject, OutputExecutable}[mode]
	args.SaveTemps = true
	var text []string
	for i := 0; i < n; i++ {
		src := zvDetSrc("source")
		t, ok := zvText(src)
		vAssume(ok)
		text = append(text, t)
		name := "f" + strconv.Itoa(i) + ".b"
		w.add(name, src)
		vNote(name, src)
		args.InputFiles = append(args.InputFiles, name)
	}
	err := Compile(args)
	vAssert(err == nil, "files that compile on their own do not compile together")
	k := 0
	for _, e := range w.ents {
		if e.made == 1 {
			vAssert(k < n, "more intermediate files than sources")
			vNote("got", e.data)
			vNote("want", text[k])
			vAssert(e.data == text[k], "the translation of a file depends on the other files")
			k++
		}
	}
	vAssert(k == n, "not every source has been compiled")
}

// The options do not change the translation.
func zvH_C20_options() {
	src := zvDetSrc("source")
	a := zvOutcome(src)
	w := zvNewWorld()
	w.add("dir/f.b", src)
	args := NewCompileOptions(zvPick("arg0", "blang", "/usr/bin/blang"), []string{"dir/f.b"})
	args.OutputType = OutputIR
	args.Optimize = vChoice("optimize", 4)
	args.DebugInfo = vBool("debug")
	args.SaveTemps = vBool("save-temps")
	args.Verbose = vBool("verbose")
	args.OutputFile = zvPick("out", "", "o.ll", "x/y")
	args.Libraries = []string{"m"}
	out := args.OutputFile
	if out == "" {
		out = "f.ll"
	}
	err := Compile(args)
	if len(a) > 6 && a[:6] == "error:" {
		vAssert(err != nil, "a malformed source is accepted")
		return
	}
	e := w.find(out)
	vAssert(err == nil && e != nil && e.data == a, "the emitted IR depends on the options")
}
