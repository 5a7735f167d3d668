package main

// C19: automatic storage.

// Lists of autos in every order; all words are written and read back, and everything starts at zero.
var zvAutos = []string{"x", "y", "v[3]", "w[1]", "u[0]", "t[]", "s[010]", "z['*n']"}

func zvH_C19_lists() {
	n := len(zvAutos)
	i := vChoice("i", n)
	j := vChoice("j", n)
	k := vChoice("k", n)
	if i == j || j == k || i == k {
		return
	}
	a, b, c := zvAutos[i], zvAutos[j], zvAutos[k]
	form := zvPick("form", "auto @,#,%;", "auto @;auto #;auto %;", "auto @;{auto #,%;}")
	use := ""
	rep := ""
	for _, d := range []string{a, b, c} {
		name := d[:1]
		if len(d) == 1 {
			use += name + "= n++ +" + name + ";"
			rep += "," + name
			continue
		}
		size := map[string]int{"v": 3, "w": 1, "u": 1, "t": 1, "s": 8, "z": 10}[name]
		for q := 0; q < size; q++ {
			use += name + "[" + zvNum(q) + "]= n++;"
			if q < 3 || q == size-1 {
				rep += "," + name + "[" + zvNum(q) + "]"
			}
		}
	}
	zvDiff([]byte("g 5;f(n,m){"+zvFill(form, "@#%", a, b, c)+use+"o(n,m"+rep+");return(m);}"), zvOpt{args: zvArgs(2), steps: 300})
}

// Scalars start at zero in every invocation and wherever they are declared.
func zvH_C19_zero() {
	p := zvPick("program", "f(a){auto x;return(x);}", "f(a){auto x,y,z;o(x,y,z);x=a;return(x);}", "g(a){auto x;x=x+a;return(x);}f(a){g(a);g(a);return(g(a));}", "f(a){auto x;x=x+1;if(a>0&a<4)return(f(a-1)*10+x);return(x);}", "f(a){if(a){auto x;o(x);x=5;}else{auto y;o(y);y=6;}return(0);}", "f(a){auto i;while(i<3){auto x;o(x);x=7;i++;}return(i);}", "f(a){auto i;while(i<3){auto x;x=x+i;i++;o(x);}return(x);}", "f(a){l:{auto x;o(x);x=a;}if(a>0&a<4){a--;goto l;}return(x);}", "f(a){auto x;{auto y;x=1;o(y);}o(x);return(y);}",
		"f(a){auto v[2],i;while(i<2){auto w[2];w[0]=i;v[i]=w;i++;}return(v[0]==v[1]);}", "f(a){goto l;auto x;l:x=a;return(x);}", "f(a){auto x;x=a;if(a==1)goto l;o(x);l:o(x);return(x);}", "f(a){switch(a){case 1:auto x;x=3;case 2:x=x+1;return(x);}}", "f(a){while(a>0&a<4){auto x;x=a;a--;}return(a);}", "f(a){auto x;if(a)x=1;return(x);}", "g(){auto x,y;x=11;y=22;o(&x!=&y);}f(a){g();auto x,y;o(x,y);g();return(x+y);}")
	zvDiff([]byte(p), zvOpt{args: zvArgs(1), steps: 300, mayFail: true})
}

// Vectors of any size: every word is there and belongs to nothing else.
func zvH_C19_size() {
	n := []int{0, 1, 2, 3, 8, 9, 16, 100}[vChoice("n", 8)]
	m := n
	if m == 0 {
		m = 1
	}
	i, j := "0", zvNum(m-1)
	zvDiff([]byte("f(a,b){auto x,v["+zvNum(n)+"],y,w["+zvNum(n)+"],z;x=y=z=b;v["+i+"]=a;v["+j+"]=a+1;w["+j+"]=a+2;w["+i+"]=a+3;o(x,y,z,v["+i+"],v["+j+"],w["+i+"],w["+j+"]);v[b]=77;return(v[b]);}"), zvOpt{args: []int64{vI64("a"), int64(m - 1)}, steps: 200})
}

// A declaration that is executed again reuses its storage: the storage in use does not grow with the iterations.
func zvH_C19_loops() {
	p := zvPick("program", "f(n){auto i;while(i<n){auto x;x=i;i++;}return(i);}", "f(n){auto i;while(i<n){auto v[10];v[0]=i;i++;}return(i);}", "f(n){auto i;l:if(i<n){auto v[5],x;v[1]=x=i;i++;goto l;}return(i);}", "f(n){auto i;while(i<n){switch(i&1){case 0:auto v[4];v[0]=1;case 1:i++;}}return(i);}", "f(n){auto i;while(i<n){o(i?\"a\":\"b\");i=i+(i<0?2:1);}return(i);}", "f(n){auto i;while(i<n){auto j;while(j<2){auto v[3];v[j]=i;j++;}i++;}return(i);}", "f(n){auto i;while(i<n){k(i);i++;}return(i);}k(n){auto v[6];v[5]=n;return(v[5]);}")
	var peak [2]int64
	var allocs [2]int
	vNote("source", p)
	for q := 0; q < 2; q++ {
		mod, err := zvCompile(p)
		vAssert(err == nil, "a valid program is rejected")
		m, fault := zvLoad(mod, &zvRets{}, 20000)
		vAssert(fault == "", "the module does not load")
		_, fault = m.zvRun("b.f", []int64{int64(2 + 7*q)})
		vAssert(fault == "", "the function does not run")
		peak[q] = m.peak
		allocs[q] = m.allocs
	}
	vAssert(peak[0] == peak[1], "the automatic storage in use grows with the number of iterations")
}

// Pointers into automatic storage stay good for the whole invocation.
func zvH_C19_pointers() {
	p := zvPick("program", "f(a){auto p;{auto x;x=a;p= &x;}{auto y;y=5;}return(*p);}", "f(a){auto v[3],p,q;p=v;q= &v[2];*p=a;*q=a+1;p[1]=7;return(v[0]+v[1]+v[2]+(q-p));}", "f(a){auto x,p;p= &x;k(p,a);return(x);}k(p,n){auto x;x=99;*p=n+1;return(x);}", "f(a){auto v[2],w[2];v[0]=w;w[0]=v;(v[0])[1]=a;(w[0])[1]=a*2;return(v[1]-w[1]);}", "f(a){auto v[4];fill(v,4,a);return(v[0]+v[3]);}fill(p,n,x){while(n>0)p[--n]=x+n;}", "f(a,b){auto p;p= &a;*p=3;p= &b;*p=4;return(a*10+b);}", "f(a){auto i,p,q;while(i<2){auto x;x=i+a;if(i)p= &x;else q= &x;i++;}return(p==q);}", "f(a){auto v[2],w;w=v;v=0;w[1]=a;return(w[1]+v);}", "f(a){auto v[3];v++;*v=a;--v;return(v[1]);}")
	zvDiff([]byte(p), zvOpt{args: zvArgs(2), steps: 300})
}

// Many autos.
func zvH_C19_many() {
	n := []int{1, 5, 17, 40}[vChoice("n", 4)]
	p := zvPick("form", "auto @;", "%")
	zvDiff([]byte("f(a){"+zvFill(p, "@%", zvRep(n, ",", "x#,v#[#]"), zvRep(n, "", "auto x#,v#[#];"))+zvRep(n, "", "x#=v#[0]=a+#;")+"o("+zvRep(n, ",", "x#,v#[0]")+");return(x0);}"), zvOpt{args: zvArgs(1), steps: 2500})
}

// Vectors of every size of up to two (thorough: three) symbolic digits.
func zvC19Digits(max int) {
	n := zvDigits("d", 1+vChoice("len", max))
	vAssume(n[0] != '0' || len(n) == 1)
	size := int(vConc(zvNumVal(n)))
	last := size - 1
	if last < 0 {
		last = 0
	}
	zvDiff([]byte("f(a,b){auto x,v["+zvNum(size)+"],y,w["+zvNum(size)+"],z;x=y=z=b;v["+zvNum(last)+"]=a;w[0]=a+1;w["+zvNum(last)+"]=a+2;v[0]=a+3;o(x,y,z,v[0],v["+zvNum(last)+"],w[0],w["+zvNum(last)+"]);return(w!=v);}"), zvOpt{args: zvArgs(2), steps: 200})
}
func zvH_C19_digits()   { zvC19Digits(2) }
func zvH_C19_T_digits() { zvC19Digits(3) }

// Large vectors.
func zvH_C19_large() {
	size := []int{127, 128, 129, 255, 256, 257, 333, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5001}[vChoice("size", 18)]
	l := zvNum(size - 1)
	d := zvPick("form", "auto x,v[@],y;", "auto v[@],x,y;", "auto y;auto x;auto v[@];", "auto x;{auto v[@];auto y;}")
	zvDiff([]byte("f(a,b){"+zvFill(d, "@", zvNum(size))+"x=b;y=a+b;v["+l+"]=a;v[0]=a+1;*(v+8*"+l+")=+x;v["+zvNum(size/2)+"]=y;o(x,y,v[0],v["+l+"],v["+zvNum(size/2)+"]);return(x);}"), zvOpt{args: zvArgs(2), steps: 200})
}

// Every call has objects of its own, however large or many they are.
func zvH_C19_frames() {
	if vChoice("kind", 2) == 0 {
		n := []int{0, 1, 2, 7, 64, 128, 129, 256, 257, 512, 513, 1000, 1024, 1025, 2049, 4097, 9999, 16385, 65537}[vChoice("size", 19)]
		l := zvNum(n - 1)
		if n == 0 {
			l = "0"
		}
		zvDiff([]byte("f(n,a){auto v["+zvNum(n)+"],x,w["+zvNum(n)+"];v[0]=n;v["+l+"]=n*3+a;w[0]=n+7;w["+l+"]=a;x=n;if(n>0)f(n-1,a+1);o(v[0],v["+l+"],w[0],w["+l+"],x);return(v["+l+"]);}"), zvOpt{args: []int64{2, vI64("a")}, steps: 400})
		return
	}
	n := []int{3, 9, 33, 70, 130}[vChoice("n", 5)]
	zvDiff([]byte("f(n,a){auto "+zvRep(n, ",", "x#,v#[1]")+";"+zvRep(n, "", "x#=n+#;v#[0]=a-#;")+"if(n>0)f(n-1,a+1);o("+zvRep(n, ",", "x#,v#[0]")+");return(n);}"), zvOpt{args: []int64{2, vI64("a")}, steps: 9000})
}
