package main

import "strings"

// C06: whatever is accepted becomes a well-formed module. No reference is involved: the module that the compiler
// returns is checked against the structural rules of LLVM IR.

func zvOnlyWF(src string) {
	vNote("source", src)
	mod, err := zvCompile(src)
	if err != nil {
		vNote("compiler", err.Error())
		vReach("rejected")
		return
	}
	vReach("accepted")
	msg := zvWellFormed(mod)
	vNote("malformed", msg)
	vAssert(msg == "", "the emitted module is not well-formed")
}

// Statements; % is replaced by another one.
var zvStmts = []string{
	";", "a=1;", "{}", "{%}", "{%a=2;}", "{a=2;%}",
	"if(a)%", "if(a)%else a=3;", "if(a)a=3;else %", "if(a){%}else{return;}", "if(a){return(1);}else{%}",
	"while(a)%", "while(a--){%}", "while(1)%", "while(a){%return;}", "while(a){return(1);%}",
	"switch(a){%}", "switch(a){case 1:%}", "switch(a){case 1:return;case 2:%}", "switch(a){case 1:%case 'b':a=1;}", "switch(a){a=1;%case 3:}", "switch(a)%", "switch(a){{case 5:%}}",
	"l:%", "l:m:%", "goto l;", "goto l;%", "goto l;l:%", "l:%goto l;", "goto m;%m:;",
	"return;", "return(a);", "return;%", "return(a?b:1);%",
	"auto x;", "auto x;x=a;%", "auto x,y[3],z;y[1]=x;%", "extrn g;", "extrn g;g=a;%",
	"f(a,b);", "x1(a);", "(&a)(b);", "a(b);", "a=b?f(a,b):g1(1);", "a=b?a=1:b?2:3;", "*a=*b;", "a[b]=b[a];", "a=b=++a;", "a++;--b;", "*a++;", "a=&b;", "a=\"s\";", "a='c';", "a=+b;", "a===b;", "a=<<(b>>1);", "a=!b!=-a;", "f;", "a=f;", "1;",
}

func zvStmt(name string, depth int) string {
	s := zvStmts[vChoice(name, len(zvStmts))]
	if strings.IndexByte(s, '%') >= 0 {
		if depth == 0 {
			return strings.Replace(s, "%", ";", 1)
		}
		return strings.Replace(s, "%", zvStmt(name+"'", depth-1), 1)
	}
	return s
}

// Two levels of nesting, then another statement.
func zvH_C06_nest() { zvOnlyWF("f(a,b){" + zvStmt("s", 1) + "}") }

func zvH_C06_seq() { zvOnlyWF("f(a,b){" + zvStmt("s", 0) + zvStmt("t", 0) + "}") }

// The same without braces: the statement is the whole body.
func zvH_C06_body() {
	zvOnlyWF("f(a,b)" + zvStmt("s", 1) + "g(a)" + zvPick("t", ";", "a=1;", "{}", "if(a);", "l:;", "return;", "while(a);"))
}

func zvH_C06_T_nest() { zvOnlyWF("f(a,b){" + zvStmt("s", 2) + "}") }

func zvH_C06_T_seq() { zvOnlyWF("f(a,b){" + zvStmt("s", 1) + zvStmt("t", 0) + "}") }

// Top-level declarations of one name, in every order, with uses in between.
var zvTops = []string{
	"a;", "a 1;", "a 1,2;", "a -1,'c',\"s\";", "a[];", "a[3];", "a[2]1,2,3;", "a[1]\"s\";", "a(){}", "a(b){return(b);}", "a(b,c)return(b+c);", "a(){return(a(1));}",
	"b(){extrn a;a=1;}", "b(){return(a(1,2));}", "b(){return(a);}", "b(){a();a(1);}", "b(){extrn a;return(a[1]);}", "b(a){return(a(1));}", "b(){auto a;a=b;return(&a);}", "b(){a:goto a;}", "b(){extrn a;return(&a);}", "b(){extrn a;a();}", "b(){return(a?a():a);}", "b(){extrn a,c;auto d;d=c=a;}",
}

func zvTop(name string) string { return zvTops[vChoice(name, len(zvTops))] }

func zvH_C06_tops() {
	t := zvTop("t1") + zvTop("t2")
	if vChoice("n", 2) == 1 {
		t += zvPick("t3", "a 5;", "a[4];", "a(x){return(x);}", "c(){return(a);}", "c(){extrn a;a=2;}", "c(){return(a(5));}")
	}
	zvOnlyWF(t)
}

func zvH_C06_T_tops() { zvOnlyWF(zvTop("t1") + zvTop("t2") + zvTop("t3")) }

// Names the implementation might use itself.
func zvH_C06_names() {
	n := zvPick("name", "entry", "a", "b", "f", "main", "x", "0", "_", "ret", "return", "end", "then", "else", "while", "cond", "body", "merge", "exit", "printf", "str", "label", "param", "tmp", "next", "strlit", "start", "if_then", "case_1", "b_f", "_start", "true", "null", "dead")
	if n == "return" || n == "else" || n == "while" || n == "0" {
		n = "x" + n
	}
	p := zvPick("program", "N(N){return(N);}", "f(N){N:goto N;}", "N(){N:N();goto N;}", "f(){auto N;N:N=1;goto N;}", "f(N){auto b;while(N)N=b;return(N?1:2);}", "f(){extrn N;N:N=1;if(N)goto N;}",
		"N;f(){extrn N;return(N);}", "N[2]1,2;f(N){return(N[1]);}", "N(){auto v[3];v[0]=\"s\";switch(v[0]){case 1:case 2:return;}}", "f(){N(1);N(1,2);return(N);}", "f(a,N){if(a){N:a=1;}else{goto N;}while(a)a--;}", "N \"s\";M \"t\",1;f(){extrn N,M;return(\"u\");}")
	zvOnlyWF(strings.ReplaceAll(strings.ReplaceAll(p, "N", n), "M", n+"1"))
}

// Identifiers with arbitrary characters.
func zvH_C06_ident() {
	n := string(zvBytes("c", 1+vChoice("len", 2)))
	p := zvPick("program", "N(N){return(N);}", "f(){N:goto N;}", "N 1;f(){extrn N;return(N);}", "f(){auto N,q;q=N;N();}")
	zvOnlyWF(strings.ReplaceAll(p, "N", n))
}

// Arbitrary bytes inside a program.
func zvH_C06_replace() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("at", len(p))
	zvOnlyWF(string(zvCat(p[:k], zvBytes("b", 1), p[k+1:])))
}

func zvH_C06_T_insert() {
	p := zvProgs[vChoice("program", len(zvProgs))]
	k := vChoice("at", len(p))
	zvOnlyWF(string(zvCat(p[:k], zvBytes("b", 2), p[k:])))
}

// Size: many parameters, locals, labels, cases, literals, arguments, statements.
func zvH_C06_many() {
	n := []int{0, 1, 2, 9, 10, 11, 33, 101}[vChoice("n", 8)]
	what := vChoice("what", 9)
	if what == 5 || what == 8 {
		vAssume(n < 50)
	}
	num := func(i int) string {
		s := ""
		for {
			s = string(rune('0'+i%10)) + s
			if i /= 10; i == 0 {
				return s
			}
		}
	}
	rep := func(sep, pat string) string {
		var b []string
		for i := 0; i < n; i++ {
			b = append(b, strings.ReplaceAll(pat, "#", num(i)))
		}
		return strings.Join(b, sep)
	}
	switch what {
	case 0:
		zvOnlyWF("f(" + rep(",", "p#") + "){" + rep("", "p#=p#+1;") + "return(f(" + rep(",", "#") + "));}")
	case 1:
		zvOnlyWF("f(){" + rep("", "auto x#,y#[#];x#=y#;") + "}")
	case 2:
		zvOnlyWF("f(a){switch(a){" + rep("", "case #:a=#;") + "}}")
	case 3:
		zvOnlyWF("f(a){" + rep("", "l#:if(a)goto l#;") + "}")
	case 4:
		zvOnlyWF("f(a){" + rep("", "g#(\"s#\");") + "}" + rep("", "h#(){return(\"t#\");}"))
	case 5:
		zvOnlyWF("f(a){" + rep("", "while(a){a=a?#:#+1;if(a){") + "a=1;" + rep("", "}else return(#);}") + "}")
	case 6:
		zvOnlyWF("v[" + num(n) + "]" + rep(",", "#") + ";w[]" + rep(",", "\"#\"") + ";" + rep("", "u# #,\"#\";"))
	case 7:
		zvOnlyWF("f(a){return(" + rep("+", "(a?#:f(#))") + "+1);}")
	case 8:
		zvOnlyWF("f(a){" + rep("", "switch(a){case #:") + rep("", "}") + "}")
	}
}
