package main

import "strings"

// C13: switch.

// Every selector value against arbitrary decimal cases.
func zvH_C13_match() {
	n := 1 + vChoice("digits", 2)
	d, e := zvDigits("d", n), zvDigits("e", 1)
	zvDiff(zvCat("f(a){auto r;r=0;switch(a){case ", d, ":r=1;case ", e, ":r=r+2;}return(r);}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

// Long constants: the whole word counts.
func zvH_C13_wide() {
	c := zvPick("case", "4294967296", "2147483648", "9223372036854775807", "01777777777777777777777", "01000000000000000000000", "255", "256", "65536", "'a'", "'ab'", "'abcdefgh'", "'*0'", "'*n'", "00", "0", "007", "18446744073709551615", "'*'*''", "08")
	zvDiff(zvCat("f(a){switch(a){case ", c, ":return(1);case 3:return(2);}return(0);}"), zvOpt{args: zvArgs(1), steps: 40})
}

var zvSwBodies = []string{"case 1:r=+1;", "case 2:r=+2;", "case 3:", "r=+4;", "return(r);", "{case 4:r=+8;}", "{r=+16;case 5:r=+32;}", "goto e;", "l:r=+64;", "if(b)r=+128;", "while(b)b=0;", "switch(b){case 1:r=+256;case 7:r=+512;}", "case 6:case 7:;", "{auto t;case 8:t=1;r=r+t;}", "o(r);"}

// Bodies of up to three parts: fall through, statements before the first case, blocks, labels, nested switches.
func zvH_C13_body() {
	n := len(zvSwBodies)
	s := zvSwBodies[vChoice("p", n)]
	s += zvSwBodies[vChoice("q", n)]
	zvFrameDiff("", "switch(a){"+s+"case 9:r=+1024;}o(r);e:;", "r")
}

func zvH_C13_T_body() {
	n := len(zvSwBodies)
	s := zvSwBodies[vChoice("p", n)]
	s += zvSwBodies[vChoice("q", n)]
	s += zvSwBodies[vChoice("r", n)]
	zvFrameDiff("", "switch(a){"+s+"}o(r);e:;", "r")
}

// Other shapes.
func zvH_C13_forms() {
	s := zvPick("form", "switch(a);", "switch(a){}", "switch(a)case 1:r=1;", "switch(a)case 1:case 2:r=1;", "switch(a)r=1;", "switch(a){case 1:}", "switch(a){r=1;}", "switch(a)switch(b){case 1:r=1;}", "switch(a){case 1:switch(b){case 1:r=1;case 2:r=2;}case 2:r=r+4;}",
		"switch(a){case 1:switch(b){case 1:r=1;return(r);}r=+8;case 2:r=r+4;}", "switch(a){{{case 1:r=1;}}{case 2:r=+2;}}", "switch(o(a)){case 1:r=1;case 2:r=2;}", "switch(a++){case 1:r=a;}", "switch(a){case 1:while(b){b=0;r=1;}case 2:r=+2;}", "while(a){switch(a){case 1:a=0;r=1;case 2:a=0;r=+2;}a=0;}",
		"switch(a){case 1:goto x1;case 2:goto x2;}r=9;x1:r=+1;x2:r=+2;", "goto x1;switch(a){x1:case 1:r=1;}", "switch(a){case 3:r=3;case 1:r=+1;case 2:r=+2;}", "switch(a){case 1:r=1;}switch(b){case 1:r=+2;}", "if(a)switch(b){case 1:r=1;}else r=2;", "switch(a<b){case 1:r=1;case 0:r=+2;}", "switch(a?b:c){case 1:r=1;}", "switch((a)){case 1:r=1;}",
		"case 1:r=1;", "switch(a){case 1:case 1:r=1;}", "switch(a){case 1:r=1;case 01:r=2;}", "switch(a){case 'a':case 97:;}", "switch(a){case b:;}", "switch(a){case :;}", "switch(a){case -1:;}", "switch(a){case 1;}", "switch(a){case 1 r=1;}", "switch{case 1:;}", "switch()case 1:;", "switch(a){case1:r=1;}", "switch(a){case\n1:r=1;}", "switch(a){case'x':r=1;}", "switch(a){case 1 :r=1;}", "switch(a){case 1/**/:r=1;}", "switch(a){case \"s\":;}", "switch(a){default:;}", "switch(a){case 1:switch(b){case 1:r=1;}}", "switch(a){case 0:return(1);case 1:return(2);}return(3);", "switch(a){casex:r=1;}", "switch(a){case 1:r=1;switch(b){case 3:r=3;}case 3:r=+4;}")
	zvFrameDiff("", s+"o(r);", "r")
}

// Many cases.
func zvH_C13_many() {
	n := []int{2, 5, 9, 17, 33}[vChoice("n", 5)]
	var b []string
	for i := 0; i < n; i++ {
		k := i * 7 % n
		num := string(rune('0'+k/10)) + string(rune('0'+k%10))
		if num[0] == '0' {
			num = num[1:]
		}
		b = append(b, "case "+num+":r=r*2+1;")
		if i == n/2 {
			b = append(b, "return(r);")
		}
	}
	zvDiff([]byte("f(a){auto r;r=0;switch(a){"+strings.Join(b, "")+"}return(r);}"), zvOpt{args: zvArgs(1), steps: 200, mayFail: true})
}

// In a loop, the state of one execution does not leak into the next.
func zvH_C13_loop() {
	zvDiff([]byte("f(a,b){auto r,i;i=r=0;while(i<3){switch(i?a:b){case 1:r=r*2+1;case 2:o(i);}i++;}return(r);}"), zvOpt{args: zvArgs(2), steps: 200})
}

func zvH_C13_T_match() {
	d, e := zvDigits("d", 3), zvDigits("e", 1)
	zvDiff(zvCat("f(a){auto r;r=0;switch(a){case ", d, ":r=1;case ", e, ":r=r+2;}return(r);}"), zvOpt{args: zvArgs(1), steps: 60, mayFail: true})
}

func zvUnum(x uint64) string {
	if x < 10 {
		return string(rune('0' + x))
	}
	return zvUnum(x/10) + string(rune('0'+x%10))
}

// Cases spread over the whole range of words, in every order, dense and sparse, with and without fall through.
func zvH_C13_spread() {
	n := []int{2, 3, 4, 5, 7, 8, 9, 16, 17, 33}[vChoice("n", 10)]
	set := vChoice("set", 8)
	order := vChoice("order", 3)
	vals := make([]uint64, n)
	for i := range vals {
		u := uint64(i)
		switch set {
		case 0: // powers of two up to the sign bit
			vals[i] = 1 << (63 - u)
		case 1: // both ends of the range
			vals[i] = u / 2
			if i%2 == 1 {
				vals[i] = -u
			}
		case 2: // the same low half
			vals[i] = u<<32 + 5
		case 3: // the same low byte
			vals[i] = u<<8 + 'a'
		case 4: // dense with a hole
			vals[i] = u + 1
			if i > n/2 {
				vals[i]++
			}
		case 5: // dense, far from zero
			vals[i] = 1<<40 + u
		case 6: // dense around the sign change
			vals[i] = 1<<63 - uint64(n/2) + u
		case 7: // even numbers and one odd one
			vals[i] = 2 * u
			if i == n-1 {
				vals[i] = 3
			}
		}
	}
	if set == 7 && n < 3 {
		vals[1] = 1
	}
	s := ""
	for i := range vals {
		v := vals[i]
		switch order {
		case 1:
			v = vals[n-1-i]
		case 2:
			v = vals[i]
			if n%3 != 0 {
				v = vals[i*3%n]
			}
		}
		s += "case " + zvUnum(v) + ":x=x*3+" + zvNum(i+1) + ";"
		if i%3 == 1 {
			s += "return(x);"
		}
	}
	if set > 4 {
		s = "{" + s + "}"
	} else if order == 2 {
		s = "x=9;" + s
	}
	zvDiff([]byte("f(a,b){auto x;x=0;switch(a){"+s+"}return(x);}"), zvOpt{args: zvArgs(2), steps: 600, mayFail: true})
}
