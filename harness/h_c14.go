package main

import "strings"

// C14: goto and labels.

// A label and a goto at any two of the marked places, jumping out of and into nested statements.
func zvH_C14_places() {
	s := "1o(1);2if(a){3o(2);4while(b){5b=0;o(3);6}7}else{8o(4);}9switch(c){case 1:0o(5);case 2:Ao(6);}B{Co(7);D}Eo(8);F"
	marks := "1234567890ABCDEF"
	i := vChoice("label", len(marks))
	j := vChoice("goto", len(marks))
	var out []byte
	for k := 0; k < len(s); k++ {
		c := s[k]
		m := strings.IndexByte(marks, c)
		// digits of calls, cases and constants are not marks
		if m >= 0 && (k > 0 && (s[k-1] == '(' || s[k-1] == ' ' || s[k-1] == '=')) {
			m = -1
		}
		if m < 0 {
			out = append(out, c)
			continue
		}
		if m == i {
			out = append(out, "l:"...)
		}
		if m == j {
			out = append(out, "if(x<2){x++;goto l;}"...)
		}
		if m == i && i != j {
			out = append(out, ';')
		}
	}
	zvDiff([]byte("f(a,b,c){auto x;x=0;"+string(out)+"}"), zvOpt{args: zvArgs(3), steps: 150, mayFail: true})
}

func zvH_C14_forms() {
	s := zvPick("form", "goto l;r=1;l:r=+2;", "l:r++;if(r<3)goto l;", "goto l;{l:r=1;}", "goto l;if(a){l:r=1;}else r=2;", "goto l;while(a){l:a=0;r++;}", "goto l;switch(a){case 1:l:r=1;case 2:r=+2;}", "l:m:r++;if(r<2)goto m;if(r<4)goto l;", "l:;", "goto l;l:;", "goto m;l:r=1;goto n;m:r=2;goto l;n:r=r*10;",
		"if(a)goto l;r=1;l:r=+2;", "if(a)goto l;else goto m;l:r=1;m:r=+2;", "while(1){r++;if(r>2)goto l;}l:r=+10;", "l:if(r<2){r++;goto l;}", "a:r=1;", "goto l;return(1);l:return(2);", "l:return(1);", "goto l;auto t;l:r=1;", "{goto l;}l:r=1;", "l:{r++;if(r<2)goto l;}", "goto l;l:m:r=1;goto n;n:;",
		"goto nosuch;", "l:r=1;l:r=2;", "l:{l:;}", "goto l;", "goto;", "goto 1;", "goto l", "goto (l);", "gotol;", "goto\nl;l:;", "goto/**/l;l:;", "goto l ;l :r=1;", "l\n:r=2;", "if(a)l:r=1;goto m;m:;", "if(a)l:goto m;m:r=1;", "goto a;", "goto x;", "goto g;", "goto o;", "x:goto x1;x1:r=5;", "o:o(3);", "g:g=4;", "f:r=6;if(a){a=0;goto f;}", "l:r=l1();l1:;", "1:r=1;", "l::r=1;", "'l':r=1;", "return:r=1;", "goto return;",
		"goto if_then;if_then:r=1;", "entry:r++;if(r<2)goto entry;", "l1:l2:l3:l4:r++;if(r<3)goto l3;", "while(a){a=0;goto l;l:r=1;}", "while(a){a=0;goto l;}l:r=+2;", "r=1;goto l;r=2;goto m;l:r=r+4;m:r=r+8;")
	zvFrameDiff("", s, "r")
}

// Labels are private to their function.
func zvH_C14_private() {
	p := zvPick("program", "g(a){l:if(a){a--;goto l;}return(7);}f(a){l:a=0;if(a)goto l;return(g(2));}", "f(a){goto l;}g(){l:;}", "f(a){l:return(a);}g(){goto l;}", "f(a){l:if(a)goto m;m:return(g(1));}g(a){m:l:return(l(a));}l(a)return(a+3);", "g(){l:;}f(a){goto l;return(1);l:return(2);}h(){l:goto l;}", "f(l){l:return(l);}", "l;f(a){extrn l;l:l=a;return(l);}", "f(a){l:return(l);}l(){}", "f(f){f:return(f);}")
	zvDiff([]byte(p), zvOpt{args: zvArgs(1), steps: 80, mayFail: true})
}

// Names of any length and characters.
func zvH_C14_name() {
	n := string(zvBytes("c", 1+vChoice("len", 2)))
	zvDiff(zvCat("f(a){auto r;r=0;", n, ":r++;if(r<a&r<3)goto ", n, ";return(r);}"), zvOpt{args: zvArgs(1), steps: 80, mayFail: true})
}

// Two symbolic one-letter labels: the same or different.
func zvH_C14_two() {
	n, m, k := zvBytes("c", 1), zvBytes("d", 1), zvBytes("e", 1)
	for _, b := range [][]byte{n, m, k} {
		vAssume(b[0]-'a' <= 25)
	}
	zvDiff(zvCat("f(a){goto ", k, ";", n, ":return(1);", m, ":return(2);}"), zvOpt{args: zvArgs(1), steps: 40, mayFail: true})
}

// Two labels whose names agree up to one arbitrary character each: the same or different.
func zvH_C14_chars() {
	pre, post := "", ""
	switch vChoice("around", 4) {
	case 1:
		pre = "lab"
	case 2:
		post = "x_1"
	case 3:
		pre, post = "a_very_long_label_name_with_many_characters_in_it_", "_and_some_more_after_it"
	}
	n, m := pre+string(zvBytes("c", 1))+post, pre+string(zvBytes("d", 1))+post
	zvDiff(zvCat("f(a){if(a)goto ", n, ";goto ", m, ";", n, ":o(1);return(1);", m, ":o(2);return(2);}"), zvOpt{args: zvArgs(1), steps: 40, mayFail: true})
}

// Labels and the names of variables and functions of the same spelling live apart.
func zvH_C14_apart() {
	n := zvPick("name", "a", "x", "v", "g", "h", "f", "k", "o", "z", "A", "X", "retval", "r", "ret", "_a")
	p := zvPick("form", "goto @;x=1;@:x=+2;", "x=a;if(x)goto @;x=3;@:", "@:x++;if(x<3)goto @;", "while(x<2){x++;if(x==a)goto @;}@:x=k(x);", "goto @;@:g=x;x=g+h[1];", "if(a)@:x=5;if(x==0)goto @;")
	zvDiff([]byte(zvFill("g 4;h[2] 1,2;k(n)return(n+1);f(a){extrn g,h;auto x,v[2],r,retval;"+p+"v[1]=x;r=x;return(v[1]*100+r+a);}", "@", n)), zvOpt{args: zvArgs(1), steps: 80, mayFail: true})
}

// Many labels and gotos in one function.
func zvH_C14_many() {
	n := []int{3, 10, 30, 100}[vChoice("n", 4)]
	p := zvPick("form", "goto l^;%return(x);", "switch(a){$}x=100;%return(x);", "if(a)goto l1;goto l2;%return(x);")
	zvDiff([]byte("f(a){auto x;x=0;"+zvFill(p, "^%$", zvNum(n/2), zvRep(n, "", "l#:x=x*2+#;o(x);"), zvRep(n, "", "case #:goto l#;"))+"}"), zvOpt{args: zvArgs(1), steps: 3000})
}

// Labels in code that only a goto reaches: bodies under constant conditions.
func zvH_C14_constant() {
	p := zvPick("body", "if(0){@}", "if(1)r=+3;else{@}", "while(0){@}", "switch(3){case 1:@case 2:r=+7;}", "if(0)@", "if(1){@}", "if('*0'){{@}}", "if(1-1){@r=+1;}else r=+2;", "{return(9);@}", "if(a==a){@}", "if(0){if(1){@}else r=+2;}", "if(0)while(b){b=0;@}", "switch(a){@}", "if(0){while(0){@}}", "while(1){if(a<2){r=+50;return(r);}a=a/2;if(0){@}}", "if(0)while(0)if(0)@")
	l := zvPick("label", "l:r=+10;", "l:{r=+10;if(b)r=+20;}", "l:if(b)r=+10;else r=+20;", "r=+5;l:m:r=+10;", "l:;", "l:while(b){b=0;r=+10;}")
	s := zvPick("jump", "goto l;#", "if(a){a=0;goto l;}#", "#if(a){a=0;goto l;}", "#if(r<30&a){a=0;goto l;}#2", "#", "goto n;#n:if(a){a=0;goto l;}", "while(c){c=0;goto l;}#")
	body := zvFill(p, "@", l)
	if strings.HasSuffix(s, "#2") {
		s = s[:len(s)-1] + "2"
		s = strings.Replace(s, "#2", "r=+100;", 1)
	}
	zvFrameDiff("", zvFill(s, "#", body), "r")
}

// However many labels and jumps there are, every jump needs its label.
func zvH_C14_missing() {
	n := 1 + vChoice("n", 20)
	k := vChoice("missing", n+1)
	s := ""
	for i := 0; i < n; i++ {
		l := "l" + zvNum(i)
		switch {
		case i == k && vBool("misspelt"):
			s += "if(a==" + zvNum(i) + ")goto l" + zvNum(i) + "x;" + l + ":x++;"
		case i == k:
			s += "if(a==" + zvNum(i) + ")goto " + l + ";"
		default:
			s += "if(a==" + zvNum(i) + ")goto " + l + ";x=x*2;" + l + ":x++;"
		}
	}
	zvDiff([]byte("g(){l"+zvNum(k)+":;}f(a){auto x;x=0;"+s+"return(x);}"), zvOpt{args: zvArgs(1), steps: 300, mayFail: true})
}
