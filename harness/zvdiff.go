package main

import "strings"

// Differential judgement: the compiler's module against the reference implementation.

type zvOpt struct {
	fn      string  // function to run
	args    []int64 // its arguments
	steps   int     // bound on the reference's steps
	depth   int     // bound on nested calls (12 if 0)
	mayFail bool    // rejection by both is fine
}

func zvSym(name string) string {
	if name == "main" {
		return name
	}
	return "b." + name
}

// zvSame compares two words; addresses are compared by what they designate.
func zvSame(im, rm map[int64]*zvObj, a, b int64, depth int, msg string) {
	sa, sb := zvSlot(a), zvSlot(b)
	if sa == 0 && sb == 0 {
		vEq(a, b, msg)
		return
	}
	vAssert(sa != 0 && sb != 0, msg+": an address on one side only")
	oa, ob := im[sa], rm[sb]
	if oa == nil && ob == nil {
		return // both point into the storage of a finished invocation
	}
	vAssert(oa != nil && ob != nil, msg+": an address of storage that is gone")
	if oa.fn != "" || ob.fn != "" {
		vAssert(oa.fn == zvSym(ob.fn), msg+": different functions")
		return
	}
	offA, offB := a-oa.base, b-ob.base
	if !vIsConst(offB) {
		if uint64(offB) >= uint64(ob.size) {
			return
		}
		offB = vConc(offB)
		offA = vConc(offA)
	}
	if ob.bytes != nil {
		vAssert(oa.bytes != nil, msg+": not a byte string")
		vAssert(oa.size-offA == ob.size-offB, msg+": string length differs")
		for i := int64(0); i+offB < ob.size && i+offB >= 0; i++ {
			vEq(oa.bytes[offA+i]&255, ob.bytes[offB+i]&255, msg+": string contents differ")
		}
		return
	}
	vAssert(oa.bytes == nil, msg+": not a vector")
	vAssert((offA-offB)%8 == 0, msg+": misaligned address")
	if offB%8 != 0 || offB < 0 || offB >= ob.size || depth > 2 {
		return
	}
	vAssert(oa.size-offA >= ob.size-offB, msg+": vector too short")
	for i := int64(0); offB+8*i < ob.size; i++ {
		if ob.def[offB/8+i] {
			zvSame(im, rm, oa.words[offA/8+i], ob.words[offB/8+i], depth+1, msg+": vector contents")
		}
	}
}

// zvDiff compiles and runs src under both and asserts that they agree.
func zvDiff(src []byte, o zvOpt) (accepted bool) {
	vNote("source", string(src))
	prog, reject := zvParse(src)
	mod, err := zvCompile(string(src))
	if reject != "" {
		vNote("reference", reject)
		vAssert(err != nil, "a malformed program is accepted")
		if !o.mayFail {
			vAssert(false, "harness: template rejected by the reference: "+reject)
		}
		return false
	}
	if err != nil {
		vNote("compiler", err.Error())
		vAssert(false, "a valid program is rejected")
	}
	if msg := zvWellFormed(mod); msg != "" {
		vNote("malformed", msg)
		vAssert(false, "the emitted module is not well-formed")
	}
	rets := &zvRets{}
	ref := zvStart(prog, rets, o.steps)
	if o.depth > 0 {
		ref.deepest = o.depth
	}
	fn := o.fn
	if fn == "" {
		fn = "f"
	}
	if prog.funcs[fn] == nil {
		return true
	}
	rres, rfault, too := ref.run(fn, o.args)
	vAssume(!too)
	if rfault != "" {
		vNote("refault", rfault)
		vAssume(false) // the program's behaviour is undefined
	}
	im, fault := zvLoad(mod, rets, 60*ref.steps+400)
	if fault == "" {
		im.deepest = ref.deepest + 28
		var ires int64
		ires, fault = im.zvRun(zvSym(fn), o.args)
		if fault == "" {
			zvCompare(prog, im, ref.m, ires, rres)
		}
	}
	if fault != "" {
		vNote("fault", fault)
		vAssert(false, "the compiled program misbehaves: "+fault)
	}
	return true
}

func zvCompare(prog *zvProg, im, rm *zvMach, ires, rres int64) {
	vAssert(len(im.trace) == len(rm.trace), "number of external calls differs")
	for i := range rm.trace {
		a, b := im.trace[i], rm.trace[i]
		vAssert(a.name == zvSym(b.name), "a different external function is called")
		vAssert(len(a.args) == len(b.args), "number of arguments of an external call differs")
		for k := range b.args {
			zvSame(a.objs, b.objs, a.args[k], b.args[k], 0, "argument of an external call differs")
		}
	}
	zvSame(im.objs, rm.objs, ires, rres, 0, "the result differs")
	for _, n := range prog.order {
		g := im.gobj[zvSym(n)]
		vAssert(g != nil, "a global is not defined")
		h := rm.gobj[n]
		vAssert(g.bytes == nil && g.size >= h.size, "a global has the wrong size")
		for i := range h.words {
			zvSame(im.objs, rm.objs, g.words[i], h.words[i], 0, "contents of a global differ")
		}
	}
}

var _ = strings.NewReader
