package main

import "strings"

// C16: calls.

func zvNum(i int) string {
	s := ""
	for {
		s = string(rune('0'+i%10)) + s
		if i /= 10; i == 0 {
			return s
		}
	}
}

func zvRep(n int, sep, pat string) string {
	var b []string
	for i := 0; i < n; i++ {
		b = append(b, strings.ReplaceAll(pat, "#", zvNum(i)))
	}
	return strings.Join(b, sep)
}

// Any number of arguments and parameters, every one with a value of its own.
func zvH_C16_count() {
	n := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 33}[vChoice("n", 16)]
	p := zvPick("form", "k(@){o(#);return(%);}f(a,b){return(k(~));}", "f(a,b){return(o(~));}", "f(a,b){auto k;k=kk;return(k(~));}kk(@){o(#);return(%);}", "k(@)return(%);f(a,b)return(k(~)+k(~));", "k(@){p0=7;o(#);return(%);}f(a,b){o(k(~));return(b);}")
	if n == 0 {
		p = strings.ReplaceAll(p, "p0=7;", "")
	}
	last := "0"
	if n > 0 {
		last = "p" + zvNum(n-1)
	}
	src := zvFill(p, "@#%~", zvRep(n, ",", "p#"), zvRep(n, ",", "p#"), last, zvRep(n, ",", "a+b*#"))
	zvDiff([]byte(src), zvOpt{args: zvArgs(2), steps: 1200})
}

// Arguments of every kind, in every position.
func zvH_C16_args() {
	e := zvOperands[vChoice("arg", len(zvOperands))]
	s := zvPick("call", "r=k3(@,2,3);", "r=k3(1,@,3);", "r=k3(1,2,@);", "o(@);", "o(1,@);", "k3(@,@,@);", "r=ff(ff(@));", "r=k3(ff(@),o(@),@)+o(4);", "k3(@);", "k3(1,2,3,@);")
	zvDiff(zvCat("k3(l,m,n){o(l,m,n);return(l*100+m*10+n);}", zvProgram("", zvFill(s, "@", e), "r")), zvOpt{args: zvArgs(3), steps: 400, mayFail: true})
}

// Through every expression that holds a function.
func zvH_C16_indirect() {
	e := zvPick("callee", "ff", "(ff)", "t", "(t)", "t2[1]", "*t3", "(a?ff:k)", "gf", "gv[1]", "(t=ff)", "pick(a)", "pick(a)", "(*t3)", "t2[a&1]", "o", "ext2", "(&gf)[0]", "q4", "(o(7)?ff:k)")
	s := zvPick("use", "r=@(b);", "r=@(b,c);", "@(1);", "r=@(@(b));", "o(@(b),@(c));", "if(@(b))r=1;", "r= -@(b);", "r=@(b)*2;", "r=@();", "return(@(b)+1);", "while(@(b)){r=3;return(r);}", "r=a?@(b):@(c);", "w[@(1)&1]=@(2);", "r=@(b)[0];", "r=v[@(b)&1];", "r=@ (b);", "r=@/**/(b);", "r=@(b)(c);")
	zvDiff(zvCat("gf;gv[2];k(n)return(n*3);pick(n)return(n?ff:k);", zvProgram("auto t,t2[2],t3,q4;extrn gf,gv;q4=t=ff;t2[0]=k;t2[1]=ff;t3= &t;gf=k;gv[1]=ff;", zvFill(s, "@", e), "r")), zvOpt{args: zvArgs(3), steps: 400, mayFail: true})
}

// Recursion: parameters and autos are private to each invocation.
func zvH_C16_recursion() {
	p := zvPick("program", "f(a){auto x;x=a;if(a>0&a<5)f(a-1);o(x,a);return(x);}", "f(a,b){auto v[2];v[0]=a;v[1]=b;if(a>0&a<4)f(a-1,b+1);o(v[0],v[1]);return(v[0]*v[1]);}", "f(n){if(n<2|n>6)return(n);return(f(n-1)+f(n-2));}", "ev(n){if(n==0)return(1);return(od(n-1));}od(n){if(n==0)return(0);return(ev(n-1));}f(a){if(a<0|a>6)a=6;return(ev(a));}",
		"f(a,p){auto x;x=a;if(a>0&a<4)return(f(a-1,&x)+x);if(a==0)*p=100;return(a);}", "g(p,n){if(n){*p= *p+n;g(p,n-1);}}f(a){auto x;x=a;g(&x,3);return(x);}", "k(a,b){a=a+1;b=b*2;o(a,b);}f(a,b){k(a,b);k(b,a);return(a-b);}", "f(a){auto x,y;x=a;y= &x;if(a>0&a<3)f(a-1);o(*y);x=9;return(*y);}", "swap(p,q){auto t;t= *p;*p= *q;*q=t;}f(a,b){swap(&a,&b);return(a-b*2);}", "f(a,b){if(a>0&a<3){o(f(a-1,b+a),b);}return(a+b);}",
		"d;f(a){extrn d;auto x;d++;x=d;if(d<4)f(a);o(x,d,a);return(x);}", "fact(n)return(n<1|n>6?1:n*fact(n-1));f(a)return(fact(a));", "f(a){auto v[3];v[a&1]=a;if(a>3)return(0);if(a>0)f(a-1);return(v[a&1]);}", "ack(m,n){if(m<=0)return(n+1);if(n<=0)return(ack(m-1,1));return(ack(m-1,ack(m,n-1)));}f(a){return(ack(a&1,1));}")
	zvDiff([]byte(p), zvOpt{args: zvArgs(2), steps: 900})
}

// The order of definition and use does not matter; the same name may be called in several functions.
func zvH_C16_order() {
	p := zvPick("program", "f(a)return(k(a));k(n)return(n+1);", "k(n)return(n+1);f(a)return(k(a));", "h(a)return(k(a,a));f(a)return(k(a)+h(a));k(n)return(n+1);", "f(a){k(a);return(k(a,1));}", "f(a){auto t;t=k;return(t(a));}k(n)return(n+2);", "f(a)return(a?k(a):f2(a));f2(n)return(k(n)*2);k(n){if(n)return(5);return(6);}", "f(a){return(k());}k(n,m){return(7);}", "f(a){return(k(a,2,3));}k(n){return(n);}", "f(a){return(k(a));}k(n){return(n);}k(n){return(n+100);}", "k(n){return(n);}f(a){return(k(a));}k(n){return(n+100);}", "f(a){return(f1(a));}f1(a){return(f11(a)+1);}f11(a){return(a+10);}", "f(a){x(a);y(a);x(y(a));return(x);}", "k(n){return(n);}f(a){auto t[2];t[0]=k;t[1]=f2;return((t[0])(a)+(t[1])(a));}f2(n){return(2*n);}")
	zvDiff([]byte(p), zvOpt{args: zvArgs(1), steps: 200})
}

// Malformed calls.
func zvH_C16_bad() {
	e := zvPick("form", "k(", "k(a", "k(a,", "k(a,)", "k(,a)", "k(,)", "k(a b)", "k(a;b)", "k)", "k(a))", "k((a)", "k(a,b", "k a", "1(a)", "'x'(1)", "k(a)(", "k(auto)", "k(return)", "k(if(a))", "k({a})", "k(\"s)", "k('a)")
	zvDiff(zvCat("f(a,b){return(", e, ");}"), zvOpt{args: zvArgs(2), steps: 60, mayFail: true})
}

// What a called function reads and writes through a pointer is the caller's own object.
func zvH_C16_pointer() {
	arg := zvPick("arg", "&x", "v", "&v[1]", "&a", "w", "&w[1]", "(q= &x)", "v+0", "&gx", "gv", "&gv[1]")
	k := zvPick("callee", "k(p,n){*p= *p+n;return(*p);}", "k(p,n)return(*p+n);", "k(p,n){auto x,v[4];x=9;v[0]=8;v[1]=7;v[2]=6;return(*p*100+x+n);}", "k(p,n){*p=n;return(k2(p,n));}k2(p,n)return(*p+n);", "k(p,n){if(n>0&n<3){*p= *p+1;return(k(p,n-1));}return(*p);}", "k(p,n){return(k2(&p,n));}k2(q,n){auto t;t= *q;*t=n;return(*t+1);}", "", "k(p,n){return(p[0]);}")
	u := zvPick("use", "return(k(@,b));", "r=k(@,b);return(r);", "k(@,b);return(x*3+a+v[1]);", "if(a)return(k(@,b));return(k(&x,3));", "return(a?k(@,b):2);", "return(k(@,k(@,b)));", "return((k(@,b)));", "{return(k(@,b));}", "while(b){return(k(@,b));}", "r=k;return(r(@,b));", "k(@,b);return(k(@,1));", "o(k(@,b));return(k(@,2));", "switch(a){case 1:return(k(@,b));}return(x);", "x=k(@,b);return(x);", "l:if(x<9){x=20;goto l;}return(k(@,b));")
	zvDiff(zvCat("gx 5;gv[3] 1,2,3;"+k+"w[3];f(a,b){auto r,x,v[3],q;extrn gx,gv,w;w[1]=3;x=4;v[0]=5;v[1]=6;q=0;", zvFill(u, "@", arg), "}"), zvOpt{args: zvArgs(2), steps: 400, mayFail: true})
}

// Functions of any name, called from every place and from other files.
func zvH_C16_names() {
	n := zvPick("name", "k", "_k", "__k", "k_", "K", "k1", "_", "_1", "main", "start", "a_function_with_a_long_name_1", "KKKK", "x", "write", "printf", "llvm", "entry")
	p := zvPick("form", "@(n)return(n+1);f(a,b){return(@(a)*10+@(b));}", "f(a,b){return(@(a)*10+@(b));}@(n)return(n+1);", "@(n,m){if(n==3)return(@(m,4));return(n+m);}f(a,b){return(@(3,a)+b);}", "f(a,b){auto p;p=@;return(p(a)+b);}@(n){return(n-1);}", "f(a,b){return(@(a,b));}", "@(){return(7);}f(a,b){return(@()+a+b);}", "@(n,m,q){return(n-m*q);}f(a,b){auto v[2];v[1]=@;return((v[1])(a,b,3));}")
	zvDiff([]byte(zvFill(p, "@", n)), zvOpt{args: zvArgs(2), steps: 80})
}
