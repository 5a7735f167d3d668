package main

import "strings"

// C18: global definitions. Every path compares the contents and the extent of every global at the end of the run,
// besides what the functions see.

var zvIvals = []string{"5", "-5", "0", "'a'", "'ab*n'", "\"s\"", "\"\"", "01777777777777777777777", "-9223372036854775807", "-0", "x", "f", "-x", "- 5", "+5", "18446744073709551615"}

func zvIval(name string) string { return zvIvals[vChoice(name, len(zvIvals))] }

// Scalars and consecutive words.
func zvH_C18_scalar() {
	g := zvPick("form", "g;", "g @;", "g @,#;", "g 1,@,#;", "g @,@,@,#;", "g -1,@;", "g @;g #;", "g @,1;h #;", "g\n@;", "g/**/@;", "g @ ,#;")
	zvDiff([]byte("x 3;"+zvFill(g, "@#", zvIval("a"), zvIval("b"))+"f(){extrn g;auto p;p= &g;o(g,p[0]);return(g);}"), zvOpt{steps: 60, mayFail: true})
}

// Vectors: size given, size implied, both.
func zvH_C18_vector() {
	n := zvPick("size", "", "0", "1", "2", "3", "4", "7", "010", "'a'", "-1", "x", " ", " 2 ", "00")
	g := zvPick("form", "v[%];", "v[%]@;", "v[%]@,#;", "v[%] @,#,3;", "v [%] @;", "v[%]\"a\",\"b\";", "v[%],1;", "v[%]1,;", "v[%]@ #;")
	zvDiff([]byte("x 3;"+zvFill(g, "%@#", n, zvPick("a", "5", "-7", "'a'", "\"s\"", "x"), zvPick("b", "6", "'b'", "\"t\""))+"w 9;f(){extrn v,w;o(v,w);return(v[0]);}"), zvOpt{steps: 60, mayFail: true})
}

// Sizes and values with arbitrary digits.
func zvH_C18_digits() {
	d := zvDigits("d", 1+vChoice("n", 2))
	e := zvDigits("e", 3)
	zvDiff(zvCat("v[", d, "] ", e, ",-", e, ";w ", e, ";f(){extrn v,w;return(v[0]+v[1]+w);}"), zvOpt{steps: 60})
}

// Names of other objects as initialisers, before or after their definition.
func zvH_C18_refs() {
	p := zvPick("program", "g x;x 5;f(){extrn g;return(g);}", "x 5;g x;f(){extrn g;return(*g);}", "x 5;g x,x;f(){extrn g,x;x=9;return(*(&g)[1]);}", "v[2]1,2;g v;f(){extrn g;return(g);}", "g f;f(){return(1);}", "v[2]f,k;f(){extrn v;return((v[1])(3));}k(n)return(n);", "v[]f,f,\"s\",v;f(){extrn v;return(v);}", "g g;f(){extrn g;return(g==&g);}", "g nosuch;f(){extrn g;return(g);}", "v[1]x;f(){extrn v;return(v[0]);}x 4;", "v[2]v,1;f(){extrn v;return(v[0]);}")
	zvDiff([]byte(p), zvOpt{steps: 80, mayFail: true})
}

// Several definitions: none disturbs another.
func zvH_C18_many() {
	ds := []string{"a;", "b 1;", "c 1,2,3;", "d[2];", "e[3]4,5;", "h[]6,7;", "i \"s\";", "j[1]1,2,3,4;", "k[0];", "l -1,'c',\"t\";"}
	s := ds[vChoice("x", len(ds))]
	s += ds[vChoice("y", len(ds))]
	if s[:len(s)/2] == s[len(s)/2:] {
		vReach("twice")
	}
	zvDiff([]byte(s+"z 99;f(n){extrn z;z=n;return(z);}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// Redefinitions: the last one counts.
func zvH_C18_twice() {
	ds := []string{"g;", "g 1;", "g 1,2;", "g[2];", "g[2]3,4;", "g[]\"s\";", "g[1]1,2,3;", "g \"t\",5;"}
	s := ds[vChoice("x", len(ds))]
	t := ds[vChoice("y", len(ds))]
	m := zvPick("between", "", "k(){extrn g;return(g);}", "h 7;")
	zvDiff([]byte(s+m+t+"f(){extrn g;return(g);}"), zvOpt{steps: 60, mayFail: true})
}

// Writing to each word of each object leaves the others alone.
func zvH_C18_extent() {
	i := vChoice("i", 8)
	s := zvPick("object", "(&a)", "(&c)", "d", "e", "h", "j", "(&l)")
	zvDiff([]byte("a;b 1;c 1,2,3;d[2];e[3]4,5;h[]6,7;j[1]1,2,3,4;l -1,'c';m[8]1;f(n){extrn a,b,c,d,e,h,j,l;"+s+"["+zvNum(i)+"]=n;return("+s+"["+zvNum(i)+"]);}"), zvOpt{args: zvArgs(1), steps: 60})
}

// Large tables.
func zvH_C18_large() {
	n := []int{1, 9, 10, 11, 50, 100, 255, 256, 257}[vChoice("n", 9)]
	p := zvPick("form", "v[]@;", "v[%]@;", "v @;", "v[300]@;", "v[%];w @;", "v[3]@;")
	zvDiff([]byte(zvFill(p, "@%", zvRep(n, ",", "#"), zvNum(n))+"f(){extrn v;auto p;p= &v;return(v);}"), zvOpt{steps: 60})
}

// The text between the parts.
func zvH_C18_syntax() {
	p := zvPick("form", "g@;", "g@1;", "g 1@;", "g 1@2;", "g 1,@;", "g[@];", "g[1@;", "g[1]@;", "g[1]@2;", "g[1]2@;", "g[]@1,2;", "g -@;", "g '@';", "g @", "g;@", "@g;")
	zvDiff(zvCat(zvFill(p, "@", string(zvBytes("c", 1))), "f(){extrn g;return(g);}"), zvOpt{steps: 60, mayFail: true})
}

func zvH_C18_T_syntax() {
	p := zvPick("form", "g@;", "g@1;", "g 1@;", "g 1@2;", "g[@];", "g[1]@;", "g[1]@2;", "g[]@1,2;", "g;@", "@g;")
	zvDiff(zvCat(zvFill(p, "@", string(zvBytes("c", 2))), "f(){extrn g;return(g);}"), zvOpt{steps: 60, mayFail: true})
}

var _ = strings.Repeat

// The whole range of words, with a sign and without, in both bases.
func zvH_C18_wide() {
	v := zvPick("value", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967295", "4294967296", "2147483648", "0777777777777777777777", "01000000000000000000000", "01777777777777777777777", "02000000000000000000000", "99999999999999999999", "010", "08", "'abcdefgh'", "'éééé'", "'*n*n*n*n*n*n*n*n'")
	p := zvPick("form", "g @;", "g -@;", "g 1,@,-@;", "g[]@,-@;", "g[3]-@;", "g[1]2,@;", "g -1,-@;", "g -@,1;", "g[100]@;", "g[65]-@,3;")
	zvDiff([]byte(zvFill(p, "@", v)+"f(){extrn g;return(&g);}"), zvOpt{steps: 60, mayFail: true})
}

// Every word of every definition can be changed, and changing it changes nothing else.
func zvH_C18_stores() {
	n := []int{0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 33}[vChoice("n", 12)]
	inits := zvPick("init", "#", "-#", "'#'", "7")
	list := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			list += ","
		}
		list += strings.Replace(inits, "#", zvNum(i%8), 1)
	}
	m := n
	if m == 0 {
		m = 1
	}
	k := []int{0, m / 2, m - 1}[vChoice("at", 3)]
	sum := "x[0]*3+x[" + zvNum(m-1) + "]*5+x[" + zvNum(m/2) + "]"
	switch vChoice("kind", 3) {
	case 0:
		zvDiff([]byte("y 1;t "+list+";z 2;f(a){extrn t,y,z;auto x;x= &t;o("+sum+");x["+zvNum(k)+"]=a;o("+sum+",t,y,z);return(t+y+z);}"), zvOpt{args: zvArgs(1), steps: 100})
	case 1:
		zvDiff([]byte("y 1;x["+zvNum(n)+"] "+list+";z 2;f(a){extrn x,y,z;o("+sum+");x["+zvNum(k)+"]=a;o("+sum+",y,z);return(y+z);}"), zvOpt{args: zvArgs(1), steps: 100})
	case 2:
		zvDiff([]byte("y 1;x["+zvNum(m+1)+"] "+list+";z 2;f(a){extrn x,y,z;o("+sum+");x["+zvNum(k)+"]=a;x["+zvNum(m)+"]=a+1;o("+sum+",x["+zvNum(m)+"],y,z);x= &y;return(x[0]);}"), zvOpt{args: zvArgs(1), steps: 100})
	}
}
