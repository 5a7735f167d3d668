package main

// An independent reference implementation of the B dialect: parser and evaluator written from the language's
// documentation (doc/, Thompson's B manual), used as the oracle. It works on the same (possibly symbolic) bytes.

type zvReject struct{ msg string }

func zvNo(msg string) { panic(zvReject{msg}) }

const (
	eNum = iota
	eStr
	eLocal
	eGlobal
	eFunc
	eNeg
	eNot
	eDeref
	eAddr
	ePre
	ePost
	eBin
	eAssign
	eCond
	eIndex
	eCall
	eParen
)

type zvE struct {
	k       int
	op      string
	a, b, c *zvE
	v       int64
	name    string
	args    []*zvE
	str     []byte
	slot    int
}

const (
	cExpr = iota
	cJmp
	cJz
	cRet
	cSwitch
	cZero
)

type zvCaseT struct {
	v   int64
	dst int
}

type zvC struct {
	k     int
	e     *zvE
	dst   int
	label string
	cases []zvCaseT
}

type zvLocal struct {
	name string
	size int64 // words of vector data, -1 for scalars
}

type zvFunc struct {
	name   string
	params int
	locals []zvLocal
	code   []zvC
	strs   []*zvE
}

type zvGlob struct {
	name  string
	vec   bool
	size  int64
	inits []*zvE
}

type zvProg struct {
	funcs map[string]*zvFunc
	globs map[string]*zvGlob
	order []string // global names in order of their (last) definition
	ext   map[string]bool
	strs  []*zvE
}

type zvSw struct {
	cases []zvCaseT
	ok    bool
}

type zvP struct {
	s      []byte
	p      int
	prog   *zvProg
	fn     *zvFunc
	scope  map[string]int // local name -> slot
	extrn  map[string]bool
	labels map[string]int
	// what is known to be a function
	fused map[string]bool
	depth int
}

func (p *zvP) eof() bool { return p.p >= len(p.s) }

// at looks at the byte i positions ahead; 0 at the end of the text.
func (p *zvP) at(i int) byte {
	if p.p+i >= len(p.s) {
		return 0
	}
	return p.s[p.p+i]
}

func zvIsSpace(c byte) bool {
	return vB2I(c == ' ')|vB2I(c-9 <= 4) != 0
}

func zvIsDigit(c byte) bool { return c-'0' <= 9 }

func zvIsLetter(c byte) bool { return (c|0x20)-'a' <= 25 }

func zvIsWord(c byte) bool { return zvIsLetter(c) || c == '_' || zvIsDigit(c) }

func (p *zvP) ws() {
	for !p.eof() {
		c := p.s[p.p]
		vAssume(c < 0x80) // letters and spaces outside ASCII are not part of the modelled language
		if zvIsSpace(c) {
			p.p++
			continue
		}
		if c == '/' && p.at(1) == '*' {
			p.p += 2
			for {
				if p.eof() {
					zvNo("unclosed comment")
				}
				if p.s[p.p] == '*' && p.at(1) == '/' {
					p.p += 2
					break
				}
				p.p++
			}
			continue
		}
		return
	}
}

// lit consumes the given character if it comes next.
func (p *zvP) lit(c byte) bool {
	if !p.eof() && p.s[p.p] == c {
		p.p++
		return true
	}
	return false
}

func (p *zvP) expect(c byte) {
	p.ws()
	if !p.lit(c) {
		zvNo("missing " + string(rune(c)))
	}
}

func (p *zvP) ident() string {
	if p.eof() || !(zvIsLetter(p.s[p.p]) || p.s[p.p] == '_') {
		zvNo("identifier expected")
	}
	st := p.p
	for !p.eof() && zvIsWord(p.s[p.p]) {
		p.p++
	}
	if !p.eof() {
		vAssume(p.s[p.p] < 0x80)
	}
	return string(p.s[st:p.p])
}

func (p *zvP) number() int64 {
	if p.eof() || !zvIsDigit(p.s[p.p]) {
		zvNo("number expected")
	}
	base := int64(10)
	if p.s[p.p] == '0' {
		base = 8
	}
	var v int64
	for !p.eof() && zvIsDigit(p.s[p.p]) {
		v = v*base + int64(p.s[p.p]-'0')
		p.p++
	}
	if !p.eof() {
		// 12ab and 12é are not covered by the documentation
		vAssume(p.s[p.p] < 0x80)
	}
	return v
}

// escaped reads one possibly escaped character; end reports an unescaped quote or the end of input.
func (p *zvP) escaped(quote byte) (c byte, end bool) {
	if p.eof() {
		zvNo("unterminated literal")
	}
	c = p.s[p.p]
	p.p++
	if c == quote {
		return 0, true
	}
	if c != '*' {
		return c, false
	}
	if p.eof() {
		zvNo("unterminated literal")
	}
	c = p.s[p.p]
	p.p++
	switch c {
	case '0', 'e':
		return 0, false
	case '(':
		return '{', false
	case ')':
		return '}', false
	case 't':
		return '\t', false
	case 'n':
		return '\n', false
	case 'r':
		return '\r', false
	case '*', '\'', '"':
		return c, false
	}
	zvNo("unknown escape")
	return 0, false
}

func (p *zvP) charConst() int64 {
	var v int64
	for n := 0; ; n++ {
		c, end := p.escaped('\'')
		if end {
			return v
		}
		if n == 8 {
			zvNo("character constant too long")
		}
		v = v<<8 | int64(c)
	}
}

func (p *zvP) strConst() []byte {
	var out []byte
	for {
		c, end := p.escaped('"')
		if end {
			return out
		}
		out = append(out, c)
	}
}

// ---- program

func zvParse(src []byte) (prog *zvProg, reject string) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(zvReject)
			if !ok {
				panic(r)
			}
			reject = x.msg
		}
	}()
	p := &zvP{s: src, prog: &zvProg{funcs: map[string]*zvFunc{}, globs: map[string]*zvGlob{}, ext: map[string]bool{}}, fused: map[string]bool{}}
	for {
		p.ws()
		if p.eof() {
			break
		}
		name := p.ident()
		p.ws()
		if p.lit('(') {
			p.function(name)
			continue
		}
		if p.eof() {
			zvNo("unexpected end of file")
		}
		p.global(name)
	}
	return p.prog, ""
}

func (p *zvP) ival() *zvE {
	p.ws()
	switch {
	case p.lit('\''):
		return &zvE{k: eNum, v: p.charConst()}
	case p.lit('"'):
		e := &zvE{k: eStr, str: p.strConst()}
		p.prog.strs = append(p.prog.strs, e)
		return e
	case p.lit('-'):
		p.ws()
		return &zvE{k: eNum, v: -p.number()}
	}
	return &zvE{k: eNum, v: p.number()}
}

func (p *zvP) global(name string) {
	g := &zvGlob{name: name}
	if p.prog.funcs[name] != nil || p.fused[name] {
		zvNo("function redeclared as variable")
	}
	if p.lit('[') {
		g.vec = true
		p.ws()
		if !p.lit(']') {
			g.size = p.number()
			p.expect(']')
		}
	}
	p.ws()
	if !p.lit(';') {
		for {
			g.inits = append(g.inits, p.ival())
			p.ws()
			if p.lit(';') {
				break
			}
			if !p.lit(',') {
				zvNo("; expected")
			}
		}
	}
	if int64(len(g.inits)) > g.size {
		g.size = int64(len(g.inits))
	}
	if g.size == 0 {
		g.size = 1
	}
	p.prog.addGlob(g)
}

// isVar tells whether name is a variable somewhere in the program read so far.
func (p *zvP) isVar(name string) bool {
	return p.prog.globs[name] != nil || p.prog.ext[name]
}

func (pr *zvProg) addGlob(g *zvGlob) {
	if pr.globs[g.name] == nil {
		pr.order = append(pr.order, g.name)
	}
	pr.globs[g.name] = g
}

func (p *zvP) function(name string) {
	f := &zvFunc{name: name}
	p.fn = f
	redeclared := p.isVar(name) // a name is either a function or a variable
	p.scope = map[string]int{}
	p.extrn = map[string]bool{}
	p.labels = map[string]int{}
	p.ws()
	if !p.lit(')') {
		for {
			p.ws()
			n := p.ident()
			_, dup := p.scope[n]
			if dup {
				zvNo("parameter declared twice")
			}
			p.addLocal(n, -1)
			p.ws()
			if p.lit(')') {
				break
			}
			if !p.lit(',') {
				zvNo(", or ) expected")
			}
		}
	}
	f.params = len(f.locals)
	if redeclared {
		zvNo("variable redeclared as function")
	}
	p.prog.funcs[name] = f // visible to itself
	p.stmt(nil)
	p.emit(zvC{k: cRet})
	for i := range f.code {
		if l := f.code[i].label; l != "" {
			d, ok := p.labels[l]
			if !ok {
				zvNo("undefined label " + l)
			}
			f.code[i].dst = d
		}
	}
	p.fn = nil
}

func (p *zvP) addLocal(n string, size int64) {
	p.scope[n] = len(p.fn.locals)
	p.fn.locals = append(p.fn.locals, zvLocal{n, size})
}

func (p *zvP) emit(c zvC) int {
	p.fn.code = append(p.fn.code, c)
	return len(p.fn.code) - 1
}

func (p *zvP) here() int { return len(p.fn.code) }

// ---- statements

func (p *zvP) stmt(sw *zvSw) {
	p.ws()
	if p.eof() {
		zvNo("statement expected")
	}
	if p.lit('{') {
		for {
			p.ws()
			if p.lit('}') {
				return
			}
			p.stmt(sw)
		}
	}
	if p.lit(';') {
		return
	}
	c := p.s[p.p]
	if !(zvIsLetter(c) || c == '_') {
		p.exprStmt()
		return
	}
	st := p.p
	name := p.ident()
	p.ws()
	switch name {
	case "return":
		if p.lit(';') {
			p.emit(zvC{k: cRet})
			return
		}
		if !p.lit('(') {
			zvNo("( expected")
		}
		e := p.expr()
		p.expect(')')
		p.expect(';')
		p.emit(zvC{k: cRet, e: e})
	case "auto":
		p.auto()
	case "extrn":
		for {
			p.ws()
			n := p.ident()
			if p.prog.funcs[n] != nil || p.fused[n] {
				zvNo("function declared extrn")
			}
			p.extrn[n] = true // an auto or a parameter of the same name hides it
			p.prog.ext[n] = true
			p.ws()
			if p.lit(';') {
				return
			}
			if !p.lit(',') {
				zvNo(", or ; expected")
			}
		}
	case "if":
		if !p.lit('(') {
			zvNo("( expected")
		}
		e := p.expr()
		p.expect(')')
		jz := p.emit(zvC{k: cJz, e: e})
		p.stmt(nil)
		p.ws()
		save := p.p
		if !p.eof() && zvIsLetter(p.s[p.p]) && p.ident() == "else" {
			end := p.emit(zvC{k: cJmp})
			p.fn.code[jz].dst = p.here()
			p.stmt(nil)
			p.fn.code[end].dst = p.here()
			return
		}
		p.p = save
		p.fn.code[jz].dst = p.here()
	case "while":
		if !p.lit('(') {
			zvNo("( expected")
		}
		top := p.here()
		e := p.expr()
		p.expect(')')
		jz := p.emit(zvC{k: cJz, e: e})
		p.stmt(nil)
		p.emit(zvC{k: cJmp, dst: top})
		p.fn.code[jz].dst = p.here()
	case "switch":
		e := p.expr()
		i := p.emit(zvC{k: cSwitch, e: e})
		s := &zvSw{}
		p.stmt(s)
		p.fn.code[i].cases = s.cases
		p.fn.code[i].dst = p.here()
	case "case":
		if sw == nil {
			zvNo("case outside switch")
		}
		var v int64
		if p.lit('\'') {
			v = p.charConst()
		} else {
			v = p.number()
		}
		p.expect(':')
		for _, x := range sw.cases {
			if x.v == v {
				zvNo("duplicate case")
			}
		}
		sw.cases = append(sw.cases, zvCaseT{v, p.here()})
		p.stmt(sw)
	case "goto":
		l := p.ident()
		p.expect(';')
		p.emit(zvC{k: cJmp, label: l})
	case "else", "default", "break":
		// reserved in the documentation only
		vAssume(false)
	default:
		if p.lit(':') {
			if _, dup := p.labels[name]; dup {
				zvNo("label defined twice")
			}
			p.labels[name] = p.here()
			p.stmt(sw)
			return
		}
		p.p = st
		p.exprStmt()
	}
}

func (p *zvP) exprStmt() {
	e := p.expr()
	p.expect(';')
	p.emit(zvC{k: cExpr, e: e})
}

func (p *zvP) auto() {
	var decls []zvLocal
	for {
		p.ws()
		n := p.ident()
		_, dup := p.scope[n]
		for _, d := range decls {
			if d.name == n {
				dup = true
			}
		}
		if dup {
			zvNo("declared twice")
		}
		d := zvLocal{n, -1}
		p.ws()
		if p.lit('[') {
			p.ws()
			d.size = 0
			if p.lit('\'') {
				d.size = p.charConst()
				p.expect(']')
			} else if !p.lit(']') {
				d.size = p.number()
				p.expect(']')
			}
			if d.size == 0 {
				d.size = 1
			}
			p.ws()
		}
		decls = append(decls, d)
		if p.lit(';') {
			break
		}
		if !p.lit(',') {
			zvNo(", or ; expected")
		}
	}
	for _, d := range decls {
		slot := len(p.fn.locals)
		p.addLocal(d.name, d.size)
		p.emit(zvC{k: cZero, dst: slot})
	}
}

// ---- expressions

func (p *zvP) lval(e *zvE) bool {
	switch e.k {
	case eLocal, eGlobal, eDeref, eIndex:
		return true
	case ePre:
		// whether ++x may be assigned to is not covered by the documentation
		vAssume(false)
	}
	return false
}

func (p *zvP) expr() *zvE {
	p.depth++
	l := p.cond()
	p.ws()
	if p.at(0) == '=' {
		if !p.lval(l) {
			zvNo("not an lvalue")
		}
		op := p.assignOp()
		r := p.expr()
		l = &zvE{k: eAssign, op: op, a: l, b: r}
	}
	p.depth--
	return l
}

// assignOp reads '=' or a compound assignment operator in the classical '=op' order.
func (p *zvP) assignOp() string {
	p.p++
	c := p.at(0)
	switch c {
	case '+', '-', '*', '/', '%', '&', '|':
		p.p++
		switch c {
		case '+':
			return "+"
		case '-':
			return "-"
		case '*':
			return "*"
		case '/':
			return "/"
		case '%':
			return "%"
		case '&':
			return "&"
		}
		return "|"
	case '<':
		p.p++
		switch p.at(0) {
		case '<':
			p.p++
			return "<<"
		case '=':
			p.p++
			return "<="
		}
		return "<"
	case '>':
		p.p++
		switch p.at(0) {
		case '>':
			p.p++
			return ">>"
		case '=':
			p.p++
			return ">="
		}
		return ">"
	case '!':
		if p.at(1) == '=' {
			p.p += 2
			return "!="
		}
	case '=':
		if p.at(1) == '=' {
			p.p += 2
			return "=="
		}
	}
	return ""
}

func (p *zvP) cond() *zvE {
	c := p.binary(10)
	p.ws()
	if p.lit('?') {
		a := p.expr()
		p.expect(':')
		b := p.cond()
		return &zvE{k: eCond, a: c, b: a, c: b}
	}
	return c
}

// binop recognises the binary operator that comes next.
func (p *zvP) binop() (op string, prec, n int) {
	if p.eof() {
		return "", 0, 0
	}
	switch p.s[p.p] {
	case '|':
		return "|", 10, 1
	case '&':
		return "&", 8, 1
	case '=':
		if p.at(1) == '=' && p.at(2) != '=' {
			return "==", 7, 2
		}
	case '!':
		if p.at(1) == '=' {
			return "!=", 7, 2
		}
		zvNo("unknown operator")
	case '<':
		switch p.at(1) {
		case '<':
			return "<<", 5, 2
		case '=':
			return "<=", 6, 2
		}
		return "<", 6, 1
	case '>':
		switch p.at(1) {
		case '>':
			return ">>", 5, 2
		case '=':
			return ">=", 6, 2
		}
		return ">", 6, 1
	case '+':
		return "+", 4, 1
	case '-':
		return "-", 4, 1
	case '*':
		return "*", 3, 1
	case '/':
		return "/", 3, 1
	case '%':
		return "%", 3, 1
	}
	return "", 0, 0
}

func zvTighter(prec int) int {
	switch prec {
	case 10:
		return 8
	case 8:
		return 7
	}
	return prec - 1
}

func (p *zvP) binary(prec int) *zvE {
	if prec < 3 {
		return p.unary()
	}
	l := p.binary(zvTighter(prec))
	for {
		p.ws()
		op, pr, n := p.binop()
		if n == 0 || pr != prec {
			return l
		}
		p.p += n
		r := p.binary(zvTighter(prec))
		l = &zvE{k: eBin, op: op, a: l, b: r}
	}
}

func (p *zvP) unary() *zvE {
	p.ws()
	if p.eof() {
		zvNo("expression expected")
	}
	switch p.s[p.p] {
	case '!':
		p.p++
		return &zvE{k: eNot, a: p.unary()}
	case '-':
		p.p++
		if p.lit('-') {
			return p.incdec(-1)
		}
		return &zvE{k: eNeg, a: p.unary()}
	case '+':
		p.p++
		if !p.lit('+') {
			zvNo("unary +")
		}
		return p.incdec(1)
	case '*':
		p.p++
		return &zvE{k: eDeref, a: p.unary()}
	case '&':
		p.p++
		a := p.unary()
		if a.k == eFunc {
			vAssume(false) // & of a function is not covered by the documentation
		}
		if !p.lval(a) {
			zvNo("not an lvalue")
		}
		return &zvE{k: eAddr, a: a}
	}
	return p.postfix()
}

func (p *zvP) incdec(d int64) *zvE {
	a := p.unary()
	if !p.lval(a) {
		zvNo("not an lvalue")
	}
	return &zvE{k: ePre, a: a, v: d}
}

func (p *zvP) postfix() *zvE {
	e := p.primary()
	for {
		p.ws()
		if p.eof() {
			return e
		}
		switch p.s[p.p] {
		case '[':
			p.p++
			i := p.expr()
			p.expect(']')
			e = &zvE{k: eIndex, a: e, b: i}
		case '(':
			p.p++
			c := &zvE{k: eCall, a: e}
			p.ws()
			if !p.lit(')') {
				for {
					c.args = append(c.args, p.expr())
					p.ws()
					if p.lit(')') {
						break
					}
					if !p.lit(',') {
						zvNo(", or ) expected")
					}
					p.ws()
					if p.at(0) == ')' {
						zvNo("expression expected")
					}
				}
			}
			e = c
		case '+':
			if p.at(1) != '+' {
				return e
			}
			if !p.lval(e) {
				zvNo("not an lvalue")
			}
			p.p += 2
			e = &zvE{k: ePost, a: e, v: 1}
		case '-':
			if p.at(1) != '-' {
				return e
			}
			if !p.lval(e) {
				zvNo("not an lvalue")
			}
			p.p += 2
			e = &zvE{k: ePost, a: e, v: -1}
		default:
			return e
		}
	}
}

func (p *zvP) primary() *zvE {
	p.ws()
	if p.eof() {
		zvNo("expression expected")
	}
	c := p.s[p.p]
	switch {
	case c == '\'':
		p.p++
		return &zvE{k: eNum, v: p.charConst()}
	case c == '"':
		p.p++
		e := &zvE{k: eStr, str: p.strConst()}
		p.prog.strs = append(p.prog.strs, e)
		return e
	case c == '(':
		p.p++
		e := p.expr()
		p.expect(')')
		return &zvE{k: eParen, a: e}
	case zvIsDigit(c):
		return &zvE{k: eNum, v: p.number()}
	}
	if !(zvIsLetter(c) || c == '_') {
		zvNo("expression expected")
	}
	name := p.ident()
	if slot, ok := p.scope[name]; ok {
		return &zvE{k: eLocal, slot: slot, name: name}
	}
	if p.extrn[name] {
		return &zvE{k: eGlobal, name: name}
	}
	p.ws()
	if p.at(0) == '=' {
		// comparing an undeclared name is not covered by the documentation
		vAssume(!(p.at(1) == '=' && p.at(2) != '='))
		zvNo("undefined identifier")
	}
	switch name {
	case "return", "auto", "extrn", "if", "while", "switch", "case", "goto", "else":
		vAssume(false) // reserved words used as names
	}
	if p.isVar(name) {
		zvNo("undefined identifier")
	}
	p.fused[name] = true
	return &zvE{k: eFunc, name: name}
}

// ---- evaluation

type zvRun struct {
	m              *zvMach // memory, external results
	prog           *zvProg
	steps          int
	limit          int
	depth, deepest int
}

type zvTooLong struct{}

func zvStart(prog *zvProg, rets *zvRets, limit int) *zvRun {
	m := &zvMach{gobj: map[string]*zvObj{}, objs: map[int64]*zvObj{}, rets: rets, next: 0x500000, strict: true}
	r := &zvRun{m: m, prog: prog, limit: limit, deepest: 12}
	for _, e := range prog.strs {
		o := m.newObj("string", int64(len(e.str)+1))
		o.bytes = make([]int64, len(e.str)+1)
		for i, b := range e.str {
			o.bytes[i] = int64(b)
		}
		o.ro = true
		e.v = o.base
	}
	for n := range prog.ext {
		if prog.globs[n] == nil {
			prog.addGlob(&zvGlob{name: n, size: 1})
		}
	}
	for _, n := range prog.order {
		g := prog.globs[n]
		var words []int64
		for _, e := range g.inits {
			words = append(words, e.v)
		}
		for int64(len(words)) < g.size {
			words = append(words, 0)
		}
		o := m.wordObj(n, int64(len(words)), true)
		copy(o.words, words)
		if g.vec {
			p := m.wordObj(n, 1, true)
			p.words[0] = o.base
			o = p
		}
		m.gobj[n] = o
	}
	return r
}

func (r *zvRun) fnAddr(name string) int64 {
	o := r.m.gobj["()"+name]
	if o == nil {
		o = r.m.newObj(name, 0)
		o.fn = name
		r.m.gobj["()"+name] = o
	}
	return o.base
}

func (r *zvRun) tick() {
	r.steps++
	if r.steps > r.limit {
		panic(zvTooLong{})
	}
}

func (r *zvRun) call(name string, args []int64) int64 {
	f := r.prog.funcs[name]
	if f == nil {
		k := len(r.m.trace)
		r.m.trace = append(r.m.trace, zvEvent{name, args, r.m.snap()})
		return r.m.rets.get(k)
	}
	r.depth++
	if r.depth > r.deepest {
		panic(zvTooLong{})
	}
	slots := make([]int64, len(f.locals))
	var objs []int64
	for i, l := range f.locals {
		o := r.m.wordObj(l.name, 1, true)
		slots[i] = o.base
		objs = append(objs, o.base)
		if i < f.params {
			if i < len(args) {
				o.words[0] = args[i]
			} else {
				o.def[0] = false
			}
		} else if l.size >= 0 {
			d := r.m.wordObj(l.name, l.size, false)
			o.words[0] = d.base
			objs = append(objs, d.base)
		}
	}
	pc := 0
	var res int64
loop:
	for {
		r.tick()
		c := &f.code[pc]
		pc++
		switch c.k {
		case cExpr:
			r.eval(slots, c.e)
		case cJmp:
			pc = c.dst
		case cJz:
			if !zvTruth(r.eval(slots, c.e)) {
				pc = c.dst
			}
		case cRet:
			if c.e != nil {
				res = r.eval(slots, c.e)
			}
			break loop
		case cSwitch:
			v := r.eval(slots, c.e)
			if zvIsAddr(v) {
				vAssume(vIsConst(v))
			}
			pc = c.dst
			for _, x := range c.cases {
				if v == x.v {
					pc = x.dst
					break
				}
			}
		case cZero:
			if f.locals[c.dst].size < 0 {
				r.m.store(slots[c.dst], 0, 64)
			}
		}
	}
	for _, o := range objs {
		delete(r.m.objs, o>>zvShift)
	}
	r.depth--
	return res
}

// zvOpDefined excludes operations whose result depends on where the objects are in memory.
func zvOpDefined(op string, x, y int64) {
	sx, sy := zvSlot(x), zvSlot(y)
	if sx == 0 && sy == 0 {
		return
	}
	ok := false
	switch op {
	case "+":
		ok = sx == 0 || sy == 0
		if sx != 0 {
			zvNear(y)
		} else {
			zvNear(x)
		}
	case "-":
		if sy == 0 {
			zvNear(y)
		}
		ok = sx != 0 && (sy == 0 || sx == sy)
	case "==", "!=":
		ok = sx == sy || vIsConst(x) && vIsConst(y)
	case "<", "<=", ">", ">=":
		ok = sx == sy
	}
	vAssume(ok)
}

// zvNear: a displacement that cannot lead around the address space or into another object's range.
func zvNear(d int64) { vAssume(uint64(d)+1<<15 < 1<<20) }

// zvTruth is the truth of a word.
func zvTruth(v int64) bool {
	if zvIsAddr(v) {
		vAssume(vIsConst(v))
	}
	return v != 0
}

func zvOp(op string, x, y int64) int64 {
	zvOpDefined(op, x, y)
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		vAssume(y != 0)
		vAssume(vB2I(x != -1<<63)|vB2I(y != -1) != 0)
		return x / y
	case "%":
		vAssume(y != 0)
		vAssume(vB2I(x != -1<<63)|vB2I(y != -1) != 0)
		return x % y
	case "&":
		return x & y
	case "|":
		return x | y
	case "<<":
		vAssume(uint64(y) < 64)
		return x << uint64(y)
	case ">>":
		vAssume(uint64(y) < 64)
		return x >> uint64(y)
	case "<":
		return vB2I(x < y)
	case "<=":
		return vB2I(x <= y)
	case ">":
		return vB2I(x > y)
	case ">=":
		return vB2I(x >= y)
	case "==":
		return vB2I(x == y)
	case "!=":
		return vB2I(x != y)
	}
	panic("zvOp")
}

func (r *zvRun) addr(sl []int64, e *zvE) int64 {
	switch e.k {
	case eLocal:
		return sl[e.slot]
	case eGlobal:
		return r.m.gobj[e.name].base
	case eDeref:
		return r.eval(sl, e.a)
	case eIndex:
		b := r.eval(sl, e.a)
		return b + 8*r.eval(sl, e.b)
	}
	panic("zvRun.addr")
}

func (r *zvRun) eval(sl []int64, e *zvE) int64 {
	r.tick()
	switch e.k {
	case eNum, eStr:
		return e.v
	case eLocal, eGlobal, eDeref, eIndex:
		return r.m.load(r.addr(sl, e), 64)
	case eFunc:
		return r.fnAddr(e.name)
	case eParen:
		return r.eval(sl, e.a)
	case eNeg:
		v := r.eval(sl, e.a)
		vAssume(!zvIsAddr(v))
		return -v
	case eNot:
		v := r.eval(sl, e.a)
		if zvIsAddr(v) {
			vAssume(vIsConst(v))
		}
		return vB2I(v == 0)
	case eAddr:
		return r.addr(sl, e.a)
	case ePre:
		a := r.addr(sl, e.a)
		v := r.m.load(a, 64) + e.v
		r.m.store(a, v, 64)
		return v
	case ePost:
		a := r.addr(sl, e.a)
		v := r.m.load(a, 64)
		r.m.store(a, v+e.v, 64)
		return v
	case eBin:
		x := r.eval(sl, e.a)
		return zvOp(e.op, x, r.eval(sl, e.b))
	case eAssign:
		a := r.addr(sl, e.a)
		v := r.eval(sl, e.b)
		if e.op != "" {
			v = zvOp(e.op, r.m.load(a, 64), v)
		}
		r.m.store(a, v, 64)
		return v
	case eCond:
		if zvTruth(r.eval(sl, e.a)) {
			return r.eval(sl, e.b)
		}
		return r.eval(sl, e.c)
	case eCall:
		var args []int64
		fn := ""
		if e.a.k == eFunc {
			fn = e.a.name
		}
		var fv int64
		if fn == "" {
			fv = r.eval(sl, e.a)
		}
		for _, x := range e.args {
			args = append(args, r.eval(sl, x))
		}
		if fn == "" {
			o := r.m.objs[zvSlot(fv)]
			if o == nil || o.fn == "" || !vIsConst(fv) {
				vAssume(false)
			}
			fn = o.fn
		}
		return r.call(fn, args)
	}
	panic("zvRun.eval")
}

// run executes a function of the reference program; too is set when the bound on steps was exceeded.
func (r *zvRun) run(name string, args []int64) (res int64, fault string, too bool) {
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case zvTooLong:
				too = true
			case zvFault:
				fault = e.msg
			default:
				panic(x)
			}
		}
	}()
	return r.call(name, args), "", false
}
