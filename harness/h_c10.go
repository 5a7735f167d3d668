package main

// C10: increment, decrement, address-of, indirection, subscripts.

// All four step operators on every kind of operand, in every kind of use.
func zvH_C10_step() {
	l := zvLvals[vChoice("lvalue", len(zvLvals))]
	e := zvPick("op", "++@", "--@", "@++", "@--")
	u := zvPick("use", "r= #;", "#;", "r= -#;", "r=b+ #;", "r= # * 2;", "if(#)r=1;", "o(#,1);", "w[(#)&1]=b;", "r= #?1:2;", "r= !#;", "r= (#);", "while(#)return(3);", "switch(#){case 1:r=1;}", "r= # < b;")
	var s string
	for i := 0; i < len(u); i++ {
		if u[i] == '#' {
			for k := 0; k < len(e); k++ {
				if e[k] == '@' {
					s += l
				} else {
					s += e[k : k+1]
				}
			}
		} else {
			s += u[i : i+1]
		}
	}
	zvFrameDiff("", s, l)
}

// Words reached through pointers and subscripts of every form.
var zvPlaces = []string{"*p", "p[0]", "v[0]", "v[1]", "v[2]", "*v", "*(v+8)", "*(8+v)", "(v+8)[1]", "(&v)[0][1]", "q[1]", "*q", "w[0]", "w[2]", "*(w+16)", "(&g)[0]", "*&g", "*&*p", "&*p==p", "&v[1]==v+8", "(&v[1])[1]", "*&v[1]", "v[v[0]&1]", "v[(a&1)+1]", "w[1-(a&1)]", "(&y)[0]", "(&u)[1]", "(&u)[2]", "**&p", "*(&p)[0]", "v[a=1]", "v[-1+c]", "(a?v:w)[1]", "(a?p:q)[0]", "*(a?p:q)", "id(v)[1]", "*id(p)", "\"s\"[0]&255", "v[0][0]"}

func zvH_C10_load() {
	e := zvPlaces[vChoice("place", len(zvPlaces))]
	zvDiff(zvCat("id(n){return(n);}", zvProgram("", "if(c<1|c>3)c=1;r= "+e+";", e)), zvOpt{args: zvArgs(3), steps: 300, mayFail: true})
}

func zvH_C10_store() {
	e := zvPlaces[vChoice("place", len(zvPlaces))]
	how := zvPick("how", "@=b", "@++", "@--", "@=+b", "++@", "--@", "-@", "!@", "&@==v", "@==@", "-@++", "!--@")
	res := "r"
	if e[0] != '*' && (how == "@=b" || how == "@=+b") {
		res = e
	}
	zvDiff(zvCat("id(n){return(n);}", zvProgram("", "if(c<1|c>3)c=1;r= "+zvFill(how, "@", e)+";", res)), zvOpt{args: zvArgs(3), steps: 300, mayFail: true})
}

// An index of any value within the vector, of every kind of vector.
func zvH_C10_index() {
	v := zvPick("vector", "v", "w", "q", "(&a)", "z", "(v+8)", "(&u)")
	n := map[string]string{"v": "3", "w": "3", "q": "3", "(&a)": "1", "z": "1", "(v+8)": "2", "(&u)": "3"}[v]
	zvFrameDiff("auto z[0];", "if(b<0|b>="+n+")return;"+v+"[b]=a;r="+v+"[b];"+v+"[b]++;r=r+ "+v+"[b]--;*("+v+"+8*b)=+c;p= &"+v+"[b];r=r-*p;", "p=="+v+"+8*b")
}

// Addresses: distinct objects have distinct addresses, and writing through one leaves the others alone.
func zvH_C10_addr() {
	l := zvPick("left", "a", "b", "x", "y", "v[0]", "v[2]", "v", "p", "g", "h", "w[0]", "w[2]", "u", "w", "*p")
	r := zvPick("right", "a", "b", "x", "y", "v[0]", "v[2]", "v", "p", "g", "h", "w[0]", "w[2]", "u", "w", "*p")
	zvFrameDiff("", "r= &"+l+"==&"+r+";", "&"+l+"!=&"+r)
}

// Steps move by one, not by a word.
func zvH_C10_byone() {
	e := zvPick("form", "p=v;p++;r=p-v;", "p=v;++p;r=p-v;", "p=v+16;p--;r=p-v;", "p= &v[2];--p;r=p-v;", "r=v++ - q;", "r= &v[1]-&v[0];", "r= &w[2]-w;", "p=+8;r=p-&y;", "p=v;p=+8;r= *p;", "p=v;r=p++==v;", "p=v;r= *(p++);", "x=v;x=x+8;r= *x;", "r=(v+8)[0]++;", "r= *p++;", "r=++*p;", "r= -*p;", "r=!*p;", "r= *p**p;", "r= *p&*p;", "r=b&*p;", "r=b& &x==b;", "r= *&*&*p;", "r= **&*&p;", "*q= *p;", "*p= *q=*&a;", "r=a---b;", "r=a- --b;", "r=a++ + ++b;", "r=a+++b;", "r= -a--;", "r= --a-b;", "r= - -a;", "r=!a++;")
	zvFrameDiff("", e, "r")
}

// Not applicable: rejected.
func zvH_C10_bad() {
	e := zvPick("form", "1++", "++1", "&1", "&(a+b)", "(a+b)++", "--ff(a)", "&ff(a)", "a++++", "++++a", "++a++", "- -1--", "&&a", "&\"s\"", "\"s\"++", "*1++", "nosuch++", "++nosuch", "&nosuch", "a[", "a[]", "a[1", "a]", "*", "&", "++", "--", "a b", "a[1][2]", "&a=b", "'a'++", "(a)++", "++(a)", "&(a)", "!a++", "-a++", "ff++", "&v", "v++", "--v")
	zvFrameDiff("", "r= "+e+";", "a")
}

// Nested subscripts and indirections of vectors of vectors.
func zvH_C10_nested() {
	e := zvPick("form", "t[1][0]", "t[a&1][1]", "*(t[0]+8)", "(*t)[1]", "*t[1]", "**t", "t[t[2]][1]", "*(*(t+8)+8)", "t[0][t[1][0]&1]", "(&t[1])[0][1]")
	how := zvPick("how", "", "=b", "++", "--", "=+c", "=<<1")
	zvFrameDiff("", "auto t[3];t[0]=v;t[1]=w;t[2]=1;r="+e+how+";", e)
}

// Subscripts of any magnitude: the address is the base plus eight times the subscript, in 64 bits.
func zvH_C10_far() {
	k := zvPick("k", "1", "127", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "8589934592", "1099511627776", "576460752303423488", "2305843009213693951", "9223372036854775807", "0777777777777777777777")
	use := zvPick("use", "p[@]=a;r=p[@]++;", "r= p[@];p[@]=+b;", "p=p+8*@;*p=b;", "p= &p[@];r= *p;", "n=@;p[n]=b;r=p[n];", "n= -@;q[n]=c;r=q[n];", "q[-@]=b;", "r= ++p[@];", "n=1;p[n+@]=b;", "p[@]=b?p[@]:c;", "r=(p+8)[@-1];", "n=@;r= &p[n]-v;", "r= &p[@]-v;")
	zvFrameDiff("auto n;", "p=v-8*"+k+";q=v+8*"+k+";"+zvFill(use, "@", k), "r")
}

// A subscript that is a literal of symbolic digits.
func zvH_C10_literal() {
	n := string(zvDigits("d", 1+vChoice("len", 3)))
	zvFrameDiff("auto n;", "n="+n+";p=v-8*n;p["+n+"]=b;r=v[0];q=p+8*"+n+";*q=+c;", "r")
}

// An arbitrary subscript into a pointer that is as far away.
func zvH_C10_any() {
	zvFrameDiff("", "p=w-8*b;"+zvPick("use", "p[b]=a;r=w[0];", "r=p[b+1];p[b+2]=r;", "r= &p[b]==w;", "*(p+b*8)=c;r=w[0];", "p[b]++;r= --p[b];", "r=*(8*b+p);", "p= &p[b];r=p[1];"), "r")
}
