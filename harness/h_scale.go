package main

import "strings"

// Size: the same guarantees when there is much of something. Every harness takes one construct, repeats or lengthens it
// to sizes around powers of two (table and buffer limits), and keeps the values that flow through it symbolic.

// zvSize picks a size up to max.
func zvSize(max int) int {
	all := []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097}
	k := 0
	for k < len(all) && all[k] <= max {
		k++
	}
	return all[vChoice("size", k)]
}

// Literals with many digits.
func zvH_C01_scale() {
	max := 65
	if vThorough() {
		max = 257
	}
	n := zvSize(max)
	d := zvDigits("d", 2)
	p := zvPick("digits", strings.Repeat("0", n), "1"+strings.Repeat("0", n), strings.Repeat("9", n), "0"+strings.Repeat("7", n))
	s := zvPick("where", "f(){return(#);}", "g #;f(){extrn g;return(g);}", "v[] -#,1;f(){extrn v;return(v[0]);}", "f(){switch(#){case #:return(1);}}")
	i := strings.IndexByte(s, '#')
	j := strings.LastIndexByte(s, '#')
	if i == j {
		zvDiff(zvCat(s[:i], p, d, s[i+1:]), zvOpt{steps: 30})
		return
	}
	zvDiff(zvCat(s[:i], p, d, s[i+1:j], p, d, s[j+1:]), zvOpt{steps: 30})
}

// Long strings, and many of them.
func zvH_C03_scale() {
	n := zvSize(4097)
	a, b, c := zvPlain("a", 1, '"'), zvPlain("b", 1, '"'), zvPlain("c", 2, '"')
	s := zvCat(a, strings.Repeat("x", n/2), b, strings.Repeat("y", n-n/2-4), c)
	switch vChoice("where", 3) {
	case 0:
		zvDiff(zvCat("f(){return(\"", s, "\");}"), zvOpt{steps: 30})
	case 1:
		zvDiff(zvCat("g \"", s, "\",\"", s, "z\";f(){extrn g;return(g);}"), zvOpt{steps: 30})
	case 2:
		zvDiff(zvCat("f(){return(\"", s, "*", zvBytes("e", 1), "\");}"), zvOpt{steps: 30, mayFail: true})
	}
}

func zvH_C03_count() {
	n := zvSize(257)
	a := zvPick("a", "", "*0", "*e", "é")
	p := zvPick("form", "v[]@;f(){extrn v;return(v);}", "f(){~}", "f(i){auto v[%];$return(v);}", "v[]@;f(){~return(k(0));}k(n){return(\"k\");}")
	lits := zvRep(n, ",", "\"s#"+a+"\"")
	zvDiff([]byte(zvFill(p, "@~%$", lits, zvRep(n, "", "o(\"s#"+a+"\");"), zvNum(n), zvRep(n, "", "v[#]=\"s#"+a+"\";"))), zvOpt{args: []int64{1}, fn: "f", steps: 6000})
}

// A long stretch of white space or a long comment before every token: tokens at every offset from the start of the text.
func zvH_C04_scale() {
	n := zvSize(4097)
	if vThorough() && vBool("larger") {
		n = []int{8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537}[vChoice("larger size", 8)]
	}
	zvGap(n, vChoice("at", 35))
}

func zvGap(n, at int) {
	toks := []string{"g", " ", "077", ";", "f", "(", "a", ")", "{", "auto", " ", "xy", ";", "xy", "= ", "a", "<<", "2", ";", "if", "(", "xy", "==", "'*n\"'", ")", "xy", "++", ";", "return", "(", "xy", ")", ";", "}"}
	gap := zvPick("gap", " ", "\n", "/*")
	if gap == "/*" {
		gap = "/*" + strings.Repeat("*", n-4) + "*/"
	} else {
		gap = strings.Repeat(gap, n)
	}
	zvDiff([]byte(strings.Join(toks[:at], "")+gap+strings.Join(toks[at:], "")), zvOpt{args: zvArgs(1), steps: 60})
}

// The same for programs that are long in other ways.
func zvH_C04_before() {
	n := zvSize(1025)
	p := zvPick("before", "d#;", "d# #;", "d#(){return(#);}", "d[#]#;", "d#(a){a:a=#;}")
	zvDiff([]byte(zvRep(n/len(p), "", p)+strings.Repeat(" ", n%len(p))+zvPick("program", "g 077;f(a){extrn g;g=a<<2;return(g++);}", "f(a){auto xyz;xyz=a;if(xyz=='*n')xyz= -12;return(\"s*t\");}", "v[3]1,'ab';f(a){extrn v;v[2]=a;return(v);}")), zvOpt{args: zvArgs(1), steps: 60})
}

// Deep nesting of every kind.
func zvH_C07_scale() {
	n := zvSize(257)
	p := zvPick("form", "a@", "b~", "a^", "%a$", "&", "a|")
	e := zvFill(p, "@~^%$&|", strings.Repeat("-b+a", n/2), strings.Repeat("*a", 9)+strings.Repeat("+a", n), strings.Repeat("<b", n/2), strings.Repeat("(", n), strings.Repeat(")", n), strings.Repeat("-!", n/2)+"a", strings.Repeat("-b&a", n/4))
	zvDiff([]byte("f(a,b){return("+e+");}"), zvOpt{args: zvArgs(2), steps: 3000})
}

func zvH_C09_scale() {
	n := zvSize(257)
	p := zvPick("form", "x=@a;", "~", "x=a;^", "v[1]=a;%")
	zvDiff([]byte("f(a,b){auto x,y,v[2];x=1;y=2;v[0]=3;v[1]=4;"+zvFill(p, "@~^%", strings.Repeat("y=x=", n/2), strings.Repeat("x=+a;y=-x;", n/2), strings.Repeat("x=+b;", n), strings.Repeat("v[0]=v[1];v[1]=|b;", n/2))+"o(x,y,v[0],v[1]);return(x);}"), zvOpt{args: zvArgs(2), steps: 6000})
}

func zvH_C10_scale() {
	n := zvSize(129)
	p := zvPick("form", "x=a;~return(x);", "x=a;^return(x);", "x=a;return($x);", "p[0]=p;p=p@;return(p==p[0]);", "v[0]=v;p=v`;return(p==v);")
	zvDiff([]byte("f(a){auto x,p,v[2];p= &p;"+zvFill(p, "~^$@`", strings.Repeat("x++;", n), strings.Repeat("x=x--;--x;", n), strings.Repeat("*&", n), strings.Repeat("[0]", n), strings.Repeat("[0]", n))+"}"), zvOpt{args: zvArgs(1), steps: 4000})
}

func zvH_C11_scale() {
	n := zvSize(65)
	p := zvPick("form", "@0", "~", "(a?1:2)^")
	tail := strings.Repeat(":0", n)
	e := zvFill(p, "@~^", zvRep(n, "", "a==#?b+#:"), strings.Repeat("a?", n)+"b"+tail, zvRep(n, "", "+(b?#:a)"))
	zvDiff([]byte("f(a,b){return("+e+");}"), zvOpt{args: zvArgs(2), steps: 3000})
}

func zvH_C12_scale() {
	n := zvSize(65)
	p := zvPick("form", "@x=99;", "~", "^", "%x=+1;$", "`")
	s := zvFill(p, "@~^%$`", zvRep(n, "", "if(a==#)x=#;else "), zvRep(n, "", "if(x==#)x=#+1;"), strings.Repeat("if(a){if(b)x=+1;else ", n/2)+";"+strings.Repeat("}", n/2), strings.Repeat("{", n)+strings.Repeat("if(a)", n), strings.Repeat("}", n), "x=0;while(x<"+zvNum(n)+"){if(x==a)b=x;x=+1;}")
	zvDiff([]byte("f(a,b){auto x;x=0;"+s+"o(b);return(x);}"), zvOpt{args: zvArgs(2), steps: 5000})
}

// Nested loops.
func zvH_C12_depth() {
	n := 1 + vChoice("depth", 12)
	s := ""
	for i := 0; i < n; i++ {
		s += "i" + zvNum(i) + "=0;while(i" + zvNum(i) + "++<1){"
	}
	zvDiff([]byte("f(a,b){auto x,"+zvRep(n, ",", "i#")+";x=0;"+s+"x=+a;if(b)x=+1;"+strings.Repeat("}", n)+"return(x);}"), zvOpt{args: zvArgs(2), steps: 5000})
}

func zvH_C13_scale() {
	n := zvSize(129)
	p := zvPick("form", "switch(a){@}", "@@", "~", "switch(a){%}", "switch(a){$}")
	one := zvRep(n, "", "case #:x=x*2+1;if(b)return(#);")
	if p == "@@" {
		one = zvRep(n, "", "switch(a){case #:x=+#;case 7#:x++;}")
		p = "@"
	}
	s := zvFill(p, "@~%$", one, zvRep(n/4, "", "switch(a){case #:x=+1;")+strings.Repeat("}", n/4), zvRep(n, "", "case #:")+"x=5;", zvRep(n, "", "case 9#0000000000:x=#;return(x);"))
	args := zvArgs(2)
	if n > 33 {
		// few operands for the many cases
		args[0] = []int64{0, int64(n / 2), int64(n - 1), int64(n)}[vChoice("a", 4)]
	}
	zvDiff([]byte("f(a,b){auto x;x=0;"+s+"o(b);return(x);}"), zvOpt{args: args, steps: 9000})
}

func zvH_C14_scale() {
	n := zvSize(257)
	p := zvPick("form", "goto l^;%", "goto `;~", "goto l0;%", "$`:x=+a;")
	l := "l" + strings.Repeat("abcdefghij", n/10) + zvNum(n)
	zvDiff([]byte("f(a){auto x;x=0;"+zvFill(p, "^%`~$", zvNum(n/2), zvRep(n, "", "l#:x=x+#;"), l, l+"x:x=x+1;"+l+":x=x*2+a;", zvRep(n/4, "", "if(x==1#)goto m#;m#:x++;"))+"return(x);}"), zvOpt{args: zvArgs(1), steps: 6000})
}

// Labels of many functions.
func zvH_C14_functions() {
	n := zvSize(65)
	zvDiff([]byte(zvRep(n, "", "f#(a){if(a)goto l;return(#);l:return(f0#x(a)+#);}")+"f(a){auto r;r=f"+zvNum(n/2)+"(a)+f"+zvNum(n-1)+"(a);if(r)goto l;r=5;l:return(r);}"), zvOpt{args: zvArgs(1), steps: 200})
}

func zvH_C15_scale() {
	n := zvSize(65)
	p := zvPick("form", "@", "~", "^", "return(a);%")
	zvDiff([]byte("f(a,b){auto x;x=b;"+zvFill(p, "@~^%", zvRep(n, "", "if(a==#)return(b+#);"), strings.Repeat("return(a+b);", n), zvRep(n, "", "if(a==#){x=#;return;}"), zvRep(n, "", "l#:x=#;return(x);"))+"o(x);}"), zvOpt{args: zvArgs(2), steps: 900})
}

func zvH_C16_scale() {
	n := zvSize(129)
	p := zvPick("form", "k(@){o(#);return(%);}f(a,b){return(k(~));}", "f(a,b){auto k;k=kk;return(k(~));}kk(@){o(#);return(%);}", "f(a,b){auto r;r=0;`return(r);}k(n){return(n+1);}", "f(a,b){return($);}k(n){return(n+1);}")
	src := zvFill(p, "@#%~`$", zvRep(n, ",", "p#"), zvRep(n, ",", "p#"), "p"+zvNum(n-1), zvRep(n, ",", "a+b+#"), zvRep(n, "", "r=+k(a+#);"), strings.Repeat("k(", n)+"a"+strings.Repeat(")", n))
	zvDiff([]byte(src), zvOpt{args: zvArgs(2), steps: 6000})
}

// Recursion to some depth.
func zvH_C16_depth() {
	n := []int{7, 8, 16, 17, 33, 64}[vChoice("depth", 6)]
	p := zvPick("program", "f(a,b,n){auto x;x=a;if(n<@)f(a+1,b,n+1);o(x,b,n);return(x);}", "f(a,b,n){auto v[2];v[0]=a+n;v[1]= &v;if(n<@)v[1]=f(a,b,n+1);return(v[0]+(n==@?b:v[1]));}", "f(a,b,n){return(n<@?k(a,b,n+1)-a:b);}k(a,b,n){auto t;t=f(a,b,n);return(t+1);}")
	zvDiff([]byte(zvFill(p, "@", zvNum(n))), zvOpt{args: append(zvArgs(2), 0), steps: 9000, depth: 140})
}

func zvH_C17_scale() {
	n := zvSize(129)
	a := strings.Repeat("n", n)
	p := zvPick("form", "@f(a){extrn g0,g%;g%=a;return(g0+g%);}", "~f(a){return(h0(a)+h%(a));}", "f(a){auto ^x;x=a;n%=a+1;return(n0+x);}", "`0 1;`1 2;f(a){extrn `0,`1;`1=a;return(`0);}", "`(a){return(a);}`1(a){return(a+1);}f(a){return(`1(a));}", "f(`,`1){auto `2;`2=`1;return(`2-`);}", "f(a){extrn $x;auto y;y=x;x=a;return(y);}x 4;", "~@f(a){extrn g%;return(g%+h%(a));}")
	zvDiff([]byte(zvFill(p, "@~^`%$", zvRep(n, "", "g# #;"), zvRep(n, "", "h#(a){auto x;extrn y#;x=#;return(a+x);}"), zvRep(n, ",", "n#")+",", a, zvNum(n-1), zvRep(n, ",", "e#")+",")), zvOpt{args: zvArgs(2), steps: 400})
}

func zvH_C18_scale() {
	n := zvSize(1025)
	d := zvDigits("d", 1)
	p := zvPick("form", "v[]@;", "v @;", "v[%]1,2;", "v[2]@;w 5;", "v[%];w[%]3;")
	zvDiff(zvCat(zvFill(p, "@%", zvRep(n, ",", "#"), zvNum(n)), "z ", d, ",7;f(n){extrn v,z;return(&v);}"), zvOpt{args: zvArgs(1), steps: 60})
}

func zvH_C18_count() {
	n := zvSize(257)
	p := zvPick("form", "@", "~", "^", "%", "@~")
	zvDiff([]byte(zvFill(p, "@~^%", zvRep(n, "", "g# #;"), zvRep(n, "", "v#[2]#,'a',-#;"), zvRep(n, "", "s#[3]\"x#\";"), zvRep(n, "", "g #,#;"))+"g0 7;f(n){extrn g0;return(g0);}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

func zvH_C19_scale() {
	n := zvSize(129)
	p := zvPick("form", "auto @;", "~", "^")
	zvDiff([]byte("f(a){"+zvFill(p, "@~^", zvRep(n, ",", "x#,v#[2]"), zvRep(n, "", "auto x#;auto v#[#];"), zvRep(n, "", "if(a)a=a+0;auto x#,v#[1];"))+zvRep(n, "", "x#=a+#;v#[0]=a+1#;")+"o("+zvRep(n, ",", "x#,v#[0]")+");return(x0);}"), zvOpt{args: []int64{zvArgs(1)[0] | 1}, steps: 6000})
}
