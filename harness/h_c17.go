package main

import "strings"

// C17: scopes.

// Two declarations of names in one function, then uses; the names may coincide.
func zvH_C17_decls() {
	n := zvPick("n", "x", "y")
	d1 := zvPick("d1", "auto x;", "auto x[2];", "extrn x;", "", "auto z,x;", "extrn z,x;", "x:;")
	d2 := zvPick("d2", "auto N;", "auto N[3];", "extrn N;", "", "auto q,N;", "N:;", "auto p;", "extrn p;")
	u := zvPick("use", "N=a;return(N);", "return(x+N);", "x=b;return(N);", "return(N(a));", "N(a);return(x);", "N[0]=a;return(N[0]);", "N++;return(&N==&x);", "x=N;return(p);", "goto N;", "return(N?1:2);")
	zvDiff([]byte(strings.ReplaceAll("x 5;y 6;z 7;f(a,p){"+d1+d2+u+"}", "N", n)), zvOpt{args: zvArgs(2), steps: 60, mayFail: true})
}

// One-letter names with arbitrary ones of three letters: every pattern of coincidence.
func zvH_C17_letters() {
	ids := make([]string, 4)
	for i := range ids {
		b := zvBytes("name", 1)
		vAssume(b[0]-'a' <= 2)
		ids[i] = string(b)
	}
	p := zvPick("program", "1(2){auto 3;3=2;return(4);}", "1 5;f(2){extrn 3;3=2;return(4);}", "1(2){return(3(4));}", "1;2 3;f(x){extrn 3;return(4);}", "1(2,3){4:goto 4;}", "f(1){extrn 2;auto 3;return(4);}", "f(x){auto 1[2],3;extrn 4;}", "1(){auto 2;2=3;}3(){extrn 4;4=2;}", "1[2];3(4){return(1[4]);}", "f(x){auto 1;{auto 2;3=x;}return(4);}")
	zvDiff([]byte(zvFill(p, "1234", ids...)), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// What one function declares means nothing in the next.
func zvH_C17_private() {
	p := zvPick("program", "x 5;g(){auto x;x=1;return(x);}f(a){extrn x;x=a+g();return(x);}", "x 5;g(){extrn x;x=1;}f(a){x=a;}", "x 5;g(){extrn x;x=1;}f(a){auto x;x=a;g();return(x);}", "g(x){return(x);}f(a){return(x);}", "g(x){return(x);}f(a){x=1;}", "g(x){x=2;return(x);}f(x){g(x);return(x);}", "g(){auto v[3];v[0]=1;}f(a){v[0]=1;}", "g(){auto x;x=3;return(&x!=0);}f(a){auto x;g();return(x);}", "x 1;f(a){extrn x;return(x);}g(){return(x);}", "x 1;f(a){extrn x;auto y;y=x;x=a;return(y+g());}g(){auto y;extrn x;y=x;return(y);}", "g(a){a=9;return(a);}f(a){return(g(a)+a);}", "f(a){if(a){auto x;x=1;}return(x);}", "f(a){if(a){auto x;x=1;}x=a;return(x);}", "f(a){x=1;auto x;}", "f(a){return(x);auto x;}", "f(a){extrn x;x=1;}", "x;f(a){extrn x;x=1;return(x);}y;", "f(a){extrn y;y=a;return(y);}y 3;", "f(a){extrn x;x=a;}g(){extrn x;return(x);}", "x 4;x 6;f(a){extrn x;return(x);}", "f(a){extrn g;return(g(a));}g(n)return(n);", "f(a){extrn x;return(x(a));}", "x;f(a){extrn x;return(x(a));}", "f(a){auto f;f=a;return(f);}", "f(f){return(f);}", "f(a){auto g;g=a;return(g);}g(){return(1);}", "g 7;f(g){return(g);}", "g 7;f(a){auto g;g=a;return(k());}k(){extrn g;return(g);}", "main(){}f(a){return(main);}", "f(a){extrn f;return(a);}", "f(a,a){return(a);}", "f(a){auto a;return(a);}", "f(a){extrn a;return(a);}", "f(a){auto x,x;}", "f(a){extrn x,x;}", "f(a){auto x;extrn x;}")
	zvDiff([]byte(p), zvOpt{args: zvArgs(1), steps: 100, mayFail: true})
}

// Undeclared names.
func zvH_C17_undeclared() {
	u := zvPick("use", "@=1;", "@;", "r=@;", "@();", "@(1);", "@++;", "--@;", "r= &@;", "@[0]=1;", "r=@[0];", "r= *@;", "@=+1;", "r=@+1;", "if(@)r=1;", "r=@(@);", "o(@);", "switch(@){case 1:;}", "return(@);", "r=-@;", "r=@?1:2;", "r=a?@:1;", "r= !@;", "@:;", "goto @;", "*@=1;", "r=@==@;", "r=@;@=2;", "@(1);@=2;", "r=(@)(2);", "r=r[@];", "r=k(1,@);")
	n := zvPick("name", "nosuch", "k", "h", "r1", "_u", "f", "g")
	zvDiff([]byte(zvFill("g 7;h;k(n)return(n);f(a){auto r;r=0;"+u+"return(r);}", "@", n)), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// Names: every character and length counts.
func zvH_C17_names() {
	n := zvPick("prefix", "", "x") + string(zvBytes("n", 1))
	m := zvPick("other", "x", "xa", "xaaaaaaaaa", "x_", "X", "xa1")
	zvDiff([]byte(zvFill("@ 5;# 6;f(a){extrn @,#;auto y;y=@*10+#;@=a;return(y+#);}", "@#", n, m)), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

func zvH_C17_long() {
	n := []int{1, 2, 7, 8, 9, 16, 31, 32, 33, 64, 100, 256}[vChoice("len", 12)]
	a := strings.Repeat("n", n)
	c := zvBytes("c", 1)
	zvDiff(zvCat("f(a){auto ", a, "p,", a, c, ";", a, "p=a;", a, c, "=1;return(", a, "p);}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// Declarations in nested blocks belong to the function; a second declaration is rejected wherever it stands.
func zvH_C17_blocks() {
	p := zvPick("form", "{@}#", "if(a){@}#", "if(a)@#", "while(a){@a=0;}#", "{@}{#}", "if(a){@}else{#}", "switch(a){case 1:@case 2:#}", "l:@#", "{{@}}#", "@{#}")
	d1 := zvPick("d1", "auto x;", "extrn x;", "auto x[2];", "auto y,x;")
	d2 := zvPick("d2", "auto x;", "extrn x;", "x=a;", "auto z;z=x;", "return(x);", "auto x[1];")
	zvDiff([]byte(zvFill("x 4;f(a){"+p+"return(3);}", "@#", d1, d2)), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// The syntax of the declarations.
func zvH_C17_syntax() {
	s := zvPick("form", "auto@x;", "auto x@;", "auto x@y;", "auto x,@;", "auto x[@];", "auto x[1@;", "auto x[1]@;", "extrn@g;", "extrn g@;", "extrn g,@;", "extrn @;", "auto @;", "extrn g@h;", "auto 'x@';")
	zvDiff(zvCat("g 7;h 8;f(a){", zvFill(s, "@", string(zvBytes("c", 1))), "return(a);}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// Whatever stands before a function at the top level does not make a name visible in it.
func zvH_C17_before() {
	d := []string{"x;", "x 5;", "x[3];", "x[3] 1,2;", "x 1,2,3;", "x(){return(4);}", "x(n)return(n+1);", "x \"s\";", "x[0];", ""}
	e := []string{"", "y;", "y 6;", "y[2];", "y[2] 7;", "y(){auto x;x=1;}", "y(){extrn x;}", "y(x)x=2;", "y(){x:goto x;}", "y(){extrn x;auto z;{auto w;}}", "y(a){auto p;p=a;return(p);}", "x;", "x 9;", "x[4] 8;"}
	u := zvPick("use", "x=a;return(1);", "return(x);", "x[0]=a;return(2);", "return(x[1]);", "x++;", "return(&x!=0);", "extrn x;return(x);", "extrn x;x=a;return(x);", "auto x;x=a;return(x);", "return(x(a));", "extrn x;return(x(a));", "extrn x;return(x[1]);", "return(p);", "z=a;", "w=a;", "y=a;", "a=y;return(a);", "x:goto x1;x1:return(4);")
	zvDiff([]byte(d[vChoice("first", len(d))]+e[vChoice("second", len(e))]+"f(a){"+u+"}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// Names that differ in one arbitrary character.
func zvH_C17_chars() {
	pre, post := "", ""
	switch vChoice("around", 4) {
	case 1:
		pre = "name"
	case 2:
		post = "x_1"
	case 3:
		pre, post = "a_very_long_name_with_many_characters_in_it_", "_and_some_more_after_it"
	}
	c, d := zvBytes("c", 1), zvBytes("d", 1)
	for _, b := range [][]byte{c, d} {
		vAssume((b[0]|32)-'a' <= 25 || b[0]-'0' <= 9 || b[0] == '_')
	}
	n, m := pre+string(c)+post, pre+string(d)+post
	zvDiff(zvCat(zvFill(zvPick("form", "f(a){auto @,#;@=a;#=a+1;return(@);}", "@ 5;# 6;f(a){extrn @,#;@=a;return(#);}", "@(n)return(n+1);#(n)return(n+2);f(a)return(@(a)+10*#(a));", "f(@,#){@=7;return(#);}", "@ 5;f(#){extrn @;return(#+@);}", "@[2] 5,6;#[2] 7,8;f(a){extrn @,#;@[1]=a;return(#[1]);}", "@ 1;f(a){auto #;#=a;return(k()+#);}k(){extrn @;return(@);}"), "@#", n, m)), zvOpt{args: zvArgs(2), steps: 60, mayFail: true})
}

// A parameter or an auto that has the name of a function is the object, not the function, in calls too.
func zvH_C17_called() {
	p := zvPick("form", "f(a,N){return(N(a));}", "f(a){auto N;N=H;return(N(a));}", "f(a){auto N[2];N[1]=H;return((N[1])(a));}", "f(a,N){o(N(a));return(N(a)+1);}", "f(a){return(r(H,a)*100+r(N,a));}r(N,x)return(N(x));", "f(a,N){auto H;H=N;return(H(a));}", "f(a){auto N;N=H;{return(N(a)+N(a));}}", "f(a,N){N(a);return(3);}", "f(a){extrn N;return(N(a));}", "f(a,N){l:if(a>3){a=3;goto l;}return(N(a));}", "f(a,N,x){x=N;return(x(a)*10+N(a));}", "f(N,a){return(N=a);}", "f(a){auto N;N=a;return(N);}", "f(a,N){return((N)(a));}", "f(a){auto N;N= &a;return(*N);}", "f(a){return(N(a));}", "f(a,N){return(H(N(a)));}", "f(a,N){N=H;return(N(a));}", "f(a){return(r(a));}r(a){auto N;N=H;return(N(a));}", "f(a,N){if(a){N=H;}else return(2);return(N(a,1));}")
	d := []string{"N(n)return(n+1);", "N(n){return(n+1);}", "N(n,m){auto t;t=n;return(t+1);}", "N;", "N 5;", ""}[vChoice("def", 6)]
	h := "H(n)return(n+2);"
	order := []string{d + h + p, p + d + h, h + p + d, d + p + h}[vChoice("order", 4)]
	n := zvPick("N", "k", "o", "f", "main")
	m := zvPick("H", "h", "k")
	args := zvArgs(1)
	main := "t(a)return(f(a,T,0));"
	main = strings.Replace(main, "T", m, 1)
	src := strings.ReplaceAll(strings.ReplaceAll(order+main, "N", n), "H", m)
	zvDiff([]byte(src), zvOpt{fn: "t", args: args, steps: 100, mayFail: true})
}

// An auto or a parameter hides the global of the same name, also when extrn names it.
func zvH_C17_hidden() {
	g := zvPick("global", "x 5;", "x[2]5,6;", "x 5,6;", "x;", "")
	d := zvPick("decl", "f(a){auto x;extrn x;@}", "f(a){extrn x;auto x;@}", "f(a,x){extrn x;@}", "f(a){auto x[2];extrn x;@}", "f(a){extrn x;auto x[2];@}", "f(a){auto x;x=7;extrn x;@}", "f(a){extrn x;x=7;auto x;@}", "f(a){if(a){extrn x;auto x;}@}", "f(x){extrn x;auto a;a=2;@}", "f(a){extrn x;{auto x;}@}")
	u := zvPick("use", "x=a;return(x);", "x=a;return(k());", "return(x);", "x++;return(k()+x);", "return(&x!=0);", "x=k;return(x());", "x[0]=a;return(k());", "o(x);return(2);")
	zvDiff([]byte(g+zvFill(d, "@", u)+"k(){extrn x;return(x);}"), zvOpt{args: zvArgs(2), steps: 80, mayFail: true})
}

// Names that mean something elsewhere mean nothing special here.
func zvH_C17_known() {
	n := zvPick("name", "start", "_start", "exit", "write", "printf", "malloc", "memcpy", "environ", "errno", "abs", "data", "str", "entry", "label", "b", "llvm", "param", "unreachable", "undef", "null", "zeroinitializer", "i64", "define", "global", "unnamed", "switch_", "break_", "_", "__", "_0", "nul", "fout", "argv", "main_")
	p := zvPick("program", "f(a){return(@(a,1));}", "@(a){return(a+1);}f(a){return(@(a)+@(2));}", "@ 5;f(a){extrn @;@=a+@;return(@);}", "@[3]1,2;f(a){extrn @;@[1]=a;return(@[0]);}", "f(@){@++;return(@);}", "f(a,@){auto x;x=@;return(x-a);}", "f(a){auto @;@=a;return(@+1);}", "f(a){goto @;a=5;@:return(a);}", "f(a){extrn @;return(@(a));}")
	zvDiff([]byte(zvFill(p, "@", n)), zvOpt{args: zvArgs(2), steps: 60})
}

// Names built of underscores, letters and digits: any two spellings are two names.
func zvH_C17_spellings() {
	word := func(n string) string {
		k := 1 + vChoice(n, 4)
		var out []byte
		for i := 0; i < k; i++ {
			if i == 0 {
				out = append(out, zvPick(n, "_", "y")...)
			} else {
				out = append(out, zvPick(n, "_", "y", "1")...)
			}
		}
		return string(out)
	}
	n := word("first")
	m := zvPick("other", "_", "__", "y", "_y", "y_", "y1", "_1", "__y", "y__", "yy_", "_1y")
	p := zvPick("form", "@ 5;# 6;f(a){extrn @,#;@=a;return(@*10+#);}", "@(n)return(n+1);#(n)return(n+2);f(a){return(@(a)*10+#(a));}", "f(a){auto @,#;@=a;#=3;return(@*10+#);}", "f(a){@:;a=a+1;if(a==4)goto @;if(a==6)goto #;#:return(a);}")
	zvDiff([]byte(zvFill(p, "@#", n, m)), zvOpt{args: zvFix(1), steps: 80, mayFail: true})
}
