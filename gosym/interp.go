package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (w *W) alloc(o *Obj) *Obj {
	w.ser++
	o.ser = w.ser
	o.init = w.inInit
	return o
}

func (w *W) makeSlice(et types.Type, l, c uint64) Val {
	if int64(l) < 0 || l > 1<<26 {
		w.rtPanic("makeslice: len out of range")
	}
	if c < l || c > 1<<26 {
		w.rtPanic("makeslice: cap out of range")
	}
	var o *Obj
	if isByteType(et) {
		o = &Obj{isB: true, b: make([]byte, c)}
	} else {
		o = &Obj{slots: make([]Val, int(c)*sizeOf(et))}
	}
	return mkSlice(w.alloc(o), 0, l, c)
}

// ---- memory ----

func (w *W) wcheck(o *Obj) {
	if w.spec > 0 && o.ser <= w.specSer {
		panic(specAbort{})
	}
	if o.ro {
		panic(violation{"write to immutable string memory"})
	}
}

func (w *W) store(addr, v Val) {
	o, ok := addr.p.(*Obj)
	if !ok {
		if sp, ok := addr.p.(*symPtr); ok {
			w.store(w.forkPtr(sp), v)
			return
		}
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if w.spec > 0 || o.ro {
		w.wcheck(o)
	}
	if w.par != nil {
		w.access(o, addr.n, true)
	}
	if o.init && !w.inInit {
		w.journalOne(o, addr.n)
	}
	if o.isB {
		o.setByte(addr.n, v)
	} else {
		o.slots[addr.n] = v
	}
}

func (w *W) journalOne(o *Obj, i uint64) {
	if o.isB {
		v := Val{n: uint64(o.b[i])}
		if o.s != nil && o.s[i] != nil {
			v = Val{p: o.s[i]}
		}
		w.journal = append(w.journal, undo{o, i, v})
	} else {
		w.journal = append(w.journal, undo{o, i, o.slots[i]})
	}
}

func (w *W) storeAgg(addr Val, vs []Val, n uint64) {
	o, ok := addr.p.(*Obj)
	if !ok {
		if sp, ok := addr.p.(*symPtr); ok {
			w.storeAgg(w.forkPtr(sp), vs, n)
			return
		}
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if w.spec > 0 || o.ro {
		w.wcheck(o)
	}
	if w.par != nil {
		w.accessN(o, addr.n, n, true)
	}
	if o.init && !w.inInit {
		for i := uint64(0); i < n; i++ {
			w.journalOne(o, addr.n+i)
		}
	}
	if o.isB {
		for i := uint64(0); i < n; i++ {
			o.setByte(addr.n+i, vs[i])
		}
		return
	}
	copy(o.slots[addr.n:addr.n+n], vs[:n])
}

func (w *W) load1(addr Val) Val {
	o, ok := addr.p.(*Obj)
	if !ok {
		if sp, ok := addr.p.(*symPtr); ok {
			return w.load1(w.forkPtr(sp))
		}
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if w.par != nil {
		w.access(o, addr.n, false)
	}
	if o.isB {
		return byteAt(Val{p: o}, addr.n)
	}
	return o.slots[addr.n]
}

func (w *W) loadAgg(addr Val, n uint64) []Val {
	o, ok := addr.p.(*Obj)
	if !ok {
		if sp, ok := addr.p.(*symPtr); ok {
			return w.loadAgg(w.forkPtr(sp), n)
		}
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if w.par != nil {
		w.accessN(o, addr.n, n, false)
	}
	r := make([]Val, n)
	if o.isB {
		for i := range r {
			r[i] = byteAt(Val{p: o}, addr.n+uint64(i))
		}
		return r
	}
	copy(r, o.slots[addr.n:addr.n+n])
	return r
}

// forkPtr splits over the values of a symbolic index.
func (w *W) forkPtr(sp *symPtr) Val {
	i := w.concretize(sp.idx)
	return Val{p: sp.o, n: sp.base + i*sp.stride + sp.add}
}

// loadSym loads through a symbolic pointer (or reports a nil dereference).
func (w *W) loadSym(v Val, wd uint8, sg, scalar bool) Val {
	sp, ok := v.p.(*symPtr)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	at := func(i uint64) Val {
		j := sp.base + i*sp.stride + sp.add
		if sp.o.isB {
			return byteAt(Val{p: sp.o}, j)
		}
		return sp.o.slots[j]
	}
	// index expressions over a byte: table lookup
	idx := sp.idx
	for idx.op == oZExt {
		idx = idx.a
	}
	if scalar && sp.n <= 256 {
		all := true
		vals := make([]uint64, sp.n)
		for i := range vals {
			x := at(uint64(i))
			if x.p != nil {
				all = false
				break
			}
			vals[i] = x.n & mask(wd)
			if wd == 0 {
				vals[i] = x.n
			}
		}
		if all {
			var i8 *Expr
			if idx.w == 8 {
				i8 = idx
			} else {
				i8 = w.ctx.ext(oTrunc, idx, 8)
			}
			if wd == 0 {
				return fromE(w.ctx.tbl(vals, 0, i8), false)
			}
			return fromE(w.ctx.tbl(vals, wd, i8), sg)
		}
	}
	// group equal slots
	if sp.n <= 4096 && len(idx.vars) == 1 {
		type grp struct {
			v Val
			g *Expr
		}
		var groups []grp
		dv := idx.vars[0]
		d := w.dom[dv]
		byIdx := map[uint64]bset{}
		var order []uint64
		for b := 0; b < 256; b++ {
			if !d.has(byte(b)) {
				continue
			}
			i := w.ctx.evalOne(sp.idx, uint64(b))
			s, ok := byIdx[i]
			if !ok {
				order = append(order, i)
			}
			s.add(byte(b))
			byIdx[i] = s
		}
		type gset struct {
			v Val
			s bset
		}
		var gs []gset
		for _, i := range order {
			if i >= sp.n {
				continue
			}
			x := at(i)
			s := byIdx[i]
			found := false
			for j := range gs {
				if sameVal(gs[j].v, x) {
					for q := range s {
						gs[j].s[q] |= s[q]
					}
					found = true
					break
				}
			}
			if !found {
				gs = append(gs, gset{x, s})
			}
		}
		if len(gs) == 1 {
			return gs[0].v
		}
		ve := w.ctx.varE[dv]
		for _, g := range gs {
			t := make([]uint64, 256)
			for b := 0; b < 256; b++ {
				if g.s.has(byte(b)) {
					t[b] = 1
				}
			}
			groups = append(groups, grp{g.v, w.ctx.tbl(t, 0, ve)})
		}
		for _, g := range groups[:len(groups)-1] {
			if w.branch(g.g) {
				return g.v
			}
		}
		return groups[len(groups)-1].v
	}
	return w.load1(w.forkPtr(sp))
}

func sameVal(a, b Val) bool {
	if a.n != b.n || a.m != b.m {
		return false
	}
	switch x := a.p.(type) {
	case nil:
		return b.p == nil
	case []Val:
		y, ok := b.p.([]Val)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && (x == y || (types.Identical(x.t, y.t) && sameVal(x.v, y.v)))
	case *Closure:
		y, ok := b.p.(*Closure)
		return ok && (x == y || (x.fn != nil && x.fn == y.fn && len(x.binds) == 0 && len(y.binds) == 0))
	default:
		if _, bad := b.p.([]Val); bad {
			return false
		}
		return a.p == b.p
	}
}

func (w *W) strIndexSym(s, iv Val, iw uint8, signed bool) Val {
	e := w.boundIdx(iv, iw, signed, s.m)
	if e.op == oConst {
		return byteAt(s, e.k)
	}
	return w.loadSym(Val{p: &symPtr{o: s.p.(*Obj), base: s.n, stride: 1, idx: e, n: s.m}}, 8, false, true)
}

// ---- strings ----

func (w *W) concat(a, b Val) Val {
	if a.m == 0 {
		return b
	}
	if b.m == 0 {
		return a
	}
	o := &Obj{isB: true, ro: true, b: make([]byte, a.m+b.m)}
	putBytes(o, 0, a, a.m)
	putBytes(o, a.m, b, b.m)
	return Val{p: w.alloc(o), m: a.m + b.m}
}

func (w *W) cmpBytes(a, b Val) int {
	return w.cmpRange(a, a.m, b, b.m)
}

func (w *W) cmpRange(a Val, la uint64, b Val, lb uint64) int {
	n := min(la, lb)
	for i := uint64(0); i < n; i++ {
		x, y := byteAt(a, i), byteAt(b, i)
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				if x.n < y.n {
					return -1
				}
				return 1
			}
			continue
		}
		ex, ey := w.ctx.toE(x, 8), w.ctx.toE(y, 8)
		if w.branch(w.ctx.bin(oEq, ex, ey)) {
			continue
		}
		if w.branch(w.ctx.bin(oUlt, ex, ey)) {
			return -1
		}
		return 1
	}
	switch {
	case la < lb:
		return -1
	case la > lb:
		return 1
	}
	return 0
}

// decodeRune decodes the first rune of a non-empty string value.
func (w *W) decodeRune(s Val) (Val, uint64) {
	b := byteAt(s, 0)
	if b.p == nil {
		if b.n < 0x80 {
			return Val{n: b.n}, 1
		}
	} else {
		e := b.p.(*Expr)
		if w.branch(w.ctx.bin(oUlt, e, w.ctx.bv(0x80, 8))) {
			return Val{p: w.ctx.ext(oZExt, e, 32)}, 1
		}
	}
	r := w.callFn(w.eng.fnDecodeRune, []Val{s}).p.([]Val)
	return r[0], w.intOf(r[1], 64, true)
}

func (w *W) runeStr(r Val) Val {
	if r.p == nil {
		return newStr(string(rune(int32(r.n))))
	}
	e := r.p.(*Expr)
	if w.branch(w.ctx.bin(oUlt, e, w.ctx.bv(0x80, 32))) {
		o := &Obj{isB: true, ro: true, b: make([]byte, 1)}
		o.setByte(0, Val{p: w.ctx.ext(oTrunc, e, 8)})
		return Val{p: w.alloc(o), m: 1}
	}
	s := w.callFn(w.eng.fnAppendRune, []Val{{}, r})
	return Val{p: s.p, n: s.n, m: sliceLen(s)}
}

// ---- maps ----

func (w *W) rangeMap(v Val) *mapIter {
	it := &mapIter{}
	if v.p == nil {
		it.m = newMap()
		return it
	}
	m := v.p.(*MapObj)
	w.access(m, 0, false)
	it.m = m
	for i := range m.ents {
		if m.ents[i].live {
			it.order = append(it.order, i)
		}
	}
	if w.mapOrders && len(it.order) > 1 {
		k := len(it.order)
		if k <= 3 {
			f := 2
			if k == 3 {
				f = 6
			}
			permute(it.order, w.choose(f))
		} else {
			// rotations and the reversal
			c := w.choose(k + 1)
			if c == k {
				for i, j := 0, k-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			} else {
				it.order = append(it.order[c:len(it.order):len(it.order)], it.order[:c]...)
			}
		}
	}
	return it
}

func permute(a []int, k int) {
	n := len(a)
	src := append([]int(nil), a...)
	fact := 1
	for i := 2; i < n; i++ {
		fact *= i
	}
	for i := 0; i < n; i++ {
		j := k / fact
		k %= fact
		a[i] = src[j]
		src = append(src[:j], src[j+1:]...)
		if n-1-i > 0 {
			fact /= n - 1 - i
		}
	}
}

// ---- calls ----

func (w *W) callFn(fn *ssa.Function, args []Val) Val {
	return w.invoke(w.eng.cfnOf(fn), args, nil, nil)
}

func (w *W) callClosure(v Val, args []Val) Val {
	if v.p == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	c := v.p.(*Closure)
	if c.native != nil {
		return c.native(w, args)
	}
	return w.invoke(c.cf, args, c.binds, nil)
}

const chunkSize = 1 << 15

func (w *W) takeRegs(n int) []Val {
	if w.sp+n > chunkSize {
		w.chunk++
		w.sp = 0
	}
	for w.chunk >= len(w.stack) {
		sz := chunkSize
		if n > sz {
			sz = n
		}
		w.stack = append(w.stack, make([]Val, sz))
	}
	r := w.stack[w.chunk][w.sp : w.sp+n : w.sp+n]
	w.sp += n
	return r
}

func (w *W) invoke(c *cfn, args, binds []Val, deferOf *frame) Val {
	w.eng.ready(c)
	w.depth++
	if w.depth > 3000 {
		if w.spec > 0 {
			panic(specAbort{})
		}
		panic(pathLimit{"call depth"})
	}
	sp, ch := w.sp, w.chunk
	f := frame{w: w, fn: c, isDeferCall: deferOf}
	f.regs = w.takeRegs(c.nregs)
	copy(f.regs, args)
	copy(f.regs[c.nparam:], binds)
	if c.intrinsic != nil {
		f.ret = c.intrinsic(w, &f, args)
	} else {
		prev := w.cur
		w.cur = c
		c.covered = true
		if c.hasDefer {
			w.runProtected(&f)
		} else {
			w.run(&f, 0)
		}
		w.cur = prev
	}
	w.sp, w.chunk = sp, ch
	w.depth--
	return f.ret
}

func (w *W) runProtected(f *frame) {
	depth, sp, ch := w.depth, w.sp, w.chunk
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			w.depth, w.sp, w.chunk = depth, sp, ch
			w.cur = f.fn
			f.panicV = &tp
		}()
		w.run(f, 0)
	}()
	if f.panicV != nil {
		w.runDefers(f)
		if f.panicV != nil {
			panic(*f.panicV)
		}
		// recovered
		if f.fn.recoverBlk >= 0 {
			w.run(f, f.fn.recoverBlk)
		} else {
			f.ret = zeroTuple(f.fn.res)
		}
	}
}

func zeroTuple(t *types.Tuple) Val {
	if t == nil || t.Len() == 0 {
		return Val{}
	}
	if t.Len() == 1 {
		return zeroVal(t.At(0).Type())
	}
	vs := make([]Val, t.Len())
	for i := range vs {
		vs[i] = zeroVal(t.At(i).Type())
	}
	return Val{p: vs}
}

func (w *W) runDefers(f *frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						f.panicV = &tp
						return
					}
					panic(r)
				}
			}()
			d()
		}()
	}
	if f.panicV != nil && f.recovered {
		f.panicV = nil
	}
}

func (w *W) moves(f *frame, e *edge) {
	if len(e.moves) == 0 {
		return
	}
	if !e.conflict {
		for i := range e.moves {
			m := &e.moves[i]
			f.regs[m.dst] = m.src.get(f)
		}
		return
	}
	var buf [16]Val
	vs := buf[:0]
	for i := range e.moves {
		vs = append(vs, e.moves[i].src.get(f))
	}
	for i := range e.moves {
		f.regs[e.moves[i].dst] = vs[i]
	}
}

func retVal(f *frame, cb *cblock) Val {
	switch len(cb.ret) {
	case 0:
		return Val{}
	case 1:
		return cb.ret[0].get(f)
	}
	vs := make([]Val, len(cb.ret))
	for i := range vs {
		vs[i] = cb.ret[i].get(f)
	}
	return Val{p: vs}
}

func (w *W) run(f *frame, start int) {
	blocks := f.fn.blocks
	cb := blocks[start]
	for {
		w.steps += cb.weight
		if w.spec > 0 {
			if w.steps > w.specEnd {
				panic(specAbort{})
			}
		} else if w.steps > w.maxStep {
			panic(pathLimit{"step limit"})
		}
		for _, in := range cb.ins {
			in(w, f)
		}
		switch cb.kind {
		case tJump:
			e := &cb.succ[0]
			w.moves(f, e)
			cb = blocks[e.to]
		case tIf:
			c := cb.cond.get(f)
			var e *edge
			if c.p == nil {
				if c.n != 0 {
					e = &cb.succ[0]
				} else {
					e = &cb.succ[1]
				}
			} else {
				ce := c.p.(*Expr)
				switch w.tri(ce) {
				case 1:
					e = &cb.succ[0]
				case 0:
					e = &cb.succ[1]
				default:
					nb, done := w.symIf(f, cb, ce)
					if done {
						return
					}
					cb = nb
					continue
				}
			}
			w.moves(f, e)
			cb = blocks[e.to]
		case tRet:
			f.ret = retVal(f, cb)
			return
		case tPanic:
			v := cb.pv.get(f)
			if w.spec > 0 {
				panic(specAbort{})
			}
			panic(targetPanic{v: v, msg: "panic: " + w.panicText(v)})
		default:
			w.unsup("block without terminator in %s", f.fn.name)
		}
	}
}

func (w *W) panicText(v Val) string {
	if v.p == nil {
		return "nil"
	}
	i := v.p.(*Iface)
	if isStringT(i.t) {
		if s, ok := strConc(i.v, i.v.m); ok {
			return s
		}
	}
	return i.t.String()
}

// ---- branch merging ----

type exitGroup struct {
	guard *Expr
	ret   bool
	val   Val
	blk   int
	moves []Val // phi values on entry to blk (nil: phis already assigned)
	edge  *edge
	set   bool // phis of blk are in the registers
	regs  []Val
}

type inEdge struct {
	g *Expr
	e *edge
	v []Val // phi values read on the edge
}

func mergeable(t types.Type) (uint8, bool, bool) {
	if isBoolT(t) {
		return 0, false, true
	}
	w, s, ok := intInfo(t)
	if ok && w <= 32 {
		return w, s, true
	}
	return 0, false, false
}

func (w *W) mergeVals(t types.Type, gs []*Expr, vs []Val) (Val, bool) {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
			break
		}
	}
	if same {
		return vs[0], true
	}
	if tp, ok := t.(*types.Tuple); ok {
		out := make([]Val, tp.Len())
		cur := make([]Val, len(vs))
		for i := range out {
			for j := range vs {
				cur[j] = vs[j].p.([]Val)[i]
			}
			v, ok := w.mergeVals(tp.At(i).Type(), gs, cur)
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return Val{p: out}, true
	}
	wd, sg, ok := mergeable(t)
	if !ok {
		return Val{}, false
	}
	r := w.ctx.toE(vs[len(vs)-1], wd)
	for i := len(vs) - 2; i >= 0; i-- {
		r = w.ctx.ite(gs[i], w.ctx.toE(vs[i], wd), r)
	}
	return fromE(r, sg), true
}

func (w *W) readMoves(f *frame, e *edge) []Val {
	if len(e.moves) == 0 {
		return nil
	}
	vs := make([]Val, len(e.moves))
	for i := range vs {
		vs[i] = e.moves[i].src.get(f)
	}
	return vs
}

// symIf handles a branch on an undecided condition: it speculates through the
// following pure blocks, merges equal continuations, and splits the path only
// between continuations that differ.
func (w *W) symIf(f *frame, cb *cblock, c *Expr) (*cblock, bool) {
	if w.par != nil {
		// speculation would record accesses that do not happen
		e := &cb.succ[1]
		if w.branch(c) {
			e = &cb.succ[0]
		}
		w.moves(f, e)
		return f.fn.blocks[e.to], false
	}
	groups := w.regionRun(f, cb, c)
	var g *exitGroup
	if len(groups) == 1 {
		w.stMerges++
		g = &groups[0]
	} else {
		if w.spec > 0 {
			panic(specAbort{})
		}
		gs := make([]*Expr, len(groups))
		for i := range groups {
			gs[i] = groups[i].guard
		}
		g = &groups[w.pick(gs)]
	}
	if g.ret {
		f.ret = g.val
		return nil, true
	}
	if g.regs != nil {
		// restore phi values that another speculated entry may have overwritten
		for i := range g.edge.moves {
			f.regs[g.edge.moves[i].dst] = g.regs[i]
		}
	} else {
		for i := range g.moves {
			f.regs[g.edge.moves[i].dst] = g.moves[i]
		}
	}
	return f.fn.blocks[g.blk], false
}

func (w *W) regionRun(f *frame, cb *cblock, c *Expr) []exitGroup {
	blocks := f.fn.blocks
	var groups []exitGroup
	var rets []exitGroup
	pend := map[int][]inEdge{}
	npend := 0
	addExit := func(g *Expr, e *edge, vs []Val) {
		for i := range groups {
			x := &groups[i]
			if x.blk != e.to || x.regs != nil || len(x.moves) != len(vs) {
				continue
			}
			eq := true
			for j := range vs {
				if !sameVal(x.moves[j], vs[j]) {
					eq = false
					break
				}
			}
			if eq {
				x.guard = w.ctx.or(x.guard, g)
				return
			}
		}
		groups = append(groups, exitGroup{guard: g, blk: e.to, moves: vs, edge: e})
	}
	deliver := func(g *Expr, e *edge) {
		if g == w.ctx.F {
			return
		}
		vs := w.readMoves(f, e)
		if cb.regSet[e.to] {
			pend[e.to] = append(pend[e.to], inEdge{g, e, vs})
			npend++
			return
		}
		addExit(g, e, vs)
	}
	deliver(c, &cb.succ[0])
	deliver(w.ctx.not(c), &cb.succ[1])
	// speculation bookkeeping
	outer := w.spec == 0
	saveSer, saveEnd, steps0 := w.specSer, w.specEnd, w.steps
	if outer {
		w.specSer = w.ser
		w.specEnd = w.steps + 3000
	}
	w.spec++
	for _, bi := range cb.region {
		ins := pend[bi]
		if len(ins) == 0 {
			continue
		}
		if len(pend) == 1 && len(groups) == 0 && len(rets) == 0 && len(ins) > 1 {
			// everything joins here: merge the phis and leave speculation
			if ok := w.mergeInto(f, ins); ok {
				w.spec--
				if outer {
					w.specSer, w.specEnd = saveSer, saveEnd
				}
				return []exitGroup{{guard: w.ctx.T, blk: bi, edge: &edge{}}}
			}
		}
		delete(pend, bi)
		b := blocks[bi]
		g := w.ctx.F
		for _, x := range ins {
			g = w.ctx.or(g, x.g)
		}
		if len(ins) > 1 {
			if !w.mergeInto(f, ins) {
				for _, x := range ins {
					addExit(x.g, x.e, x.v)
				}
				continue
			}
		} else {
			e := ins[0].e
			for i := range e.moves {
				f.regs[e.moves[i].dst] = ins[0].v[i]
			}
		}
		regs := make([]Val, len(ins[0].e.moves))
		for i := range regs {
			regs[i] = f.regs[ins[0].e.moves[i].dst]
		}
		if !w.specBlock(f, b) {
			groups = append(groups, exitGroup{guard: g, blk: bi, edge: ins[0].e, regs: regs})
			continue
		}
		switch b.kind {
		case tJump:
			deliver(g, &b.succ[0])
		case tIf:
			cv := b.cond.get(f)
			e := w.ctx.toE(cv, 0)
			switch w.tri(e) {
			case 1:
				deliver(g, &b.succ[0])
			case 0:
				deliver(g, &b.succ[1])
			default:
				deliver(w.ctx.and(g, e), &b.succ[0])
				deliver(w.ctx.and(g, w.ctx.not(e)), &b.succ[1])
			}
		case tRet:
			rets = append(rets, exitGroup{guard: g, ret: true, val: retVal(f, b)})
		}
	}
	w.spec--
	if outer {
		w.specSer, w.specEnd = saveSer, saveEnd
		// speculative work is charged once
		w.steps = steps0 + (w.steps-steps0)/4
	}
	// merge returns
	if len(rets) > 0 {
		gs := make([]*Expr, len(rets))
		vs := make([]Val, len(rets))
		for i := range rets {
			gs[i], vs[i] = rets[i].guard, rets[i].val
		}
		var t types.Type = f.fn.res
		if f.fn.res.Len() == 1 {
			t = f.fn.res.At(0).Type()
		}
		if v, ok := w.mergeVals(t, gs, vs); ok {
			g := w.ctx.F
			for _, x := range gs {
				g = w.ctx.or(g, x)
			}
			groups = append(groups, exitGroup{guard: g, ret: true, val: v})
		} else {
			for _, r := range rets {
				done := false
				for i := range groups {
					if groups[i].ret && sameVal(groups[i].val, r.val) {
						groups[i].guard = w.ctx.or(groups[i].guard, r.guard)
						done = true
						break
					}
				}
				if !done {
					groups = append(groups, r)
				}
			}
		}
	}
	return groups
}

func (w *W) mergeInto(f *frame, ins []inEdge) bool {
	n := len(ins[0].e.moves)
	if n == 0 {
		return true
	}
	gs := make([]*Expr, len(ins))
	vs := make([]Val, len(ins))
	for j := range ins {
		gs[j] = ins[j].g
	}
	out := make([]Val, n)
	for i := 0; i < n; i++ {
		for j := range ins {
			vs[j] = ins[j].v[i]
		}
		v, ok := w.mergeVals(ins[0].e.moves[i].t, gs, vs)
		if !ok {
			return false
		}
		out[i] = v
	}
	for i := 0; i < n; i++ {
		f.regs[ins[0].e.moves[i].dst] = out[i]
	}
	return true
}

// specBlock executes the body of b speculatively; false means it must be an exit.
func (w *W) specBlock(f *frame, b *cblock) (ok bool) {
	if len(b.ins) == 0 {
		return true
	}
	depth, sp, ch, spec := w.depth, w.sp, w.chunk, w.spec
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, targetPanic:
				w.depth, w.sp, w.chunk, w.spec = depth, sp, ch, spec
				w.cur = f.fn
				ok = false
			default:
				panic(r)
			}
		}
	}()
	w.steps += b.weight
	if w.steps > w.specEnd {
		return false
	}
	for _, in := range b.ins {
		in(w, f)
	}
	return true
}

// ---- compiled calls ----

func (k *compiler) args(c *ssa.CallCommon) []opd {
	os := make([]opd, len(c.Args))
	for i, a := range c.Args {
		os[i] = k.opd(a)
	}
	return os
}

func getArgs(os []opd, f *frame, pre int) []Val {
	vs := make([]Val, len(os)+pre)
	for i := range os {
		vs[i+pre] = os[i].get(f)
	}
	return vs
}

func (k *compiler) call(c *ssa.CallCommon) func(w *W, f *frame) Val {
	os := k.args(c)
	if c.IsInvoke() {
		recv := k.opd(c.Value)
		m := c.Method
		return func(w *W, f *frame) Val {
			r := recv.get(f)
			if r.p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := r.p.(*Iface)
			cf := w.method(i.t, m)
			if cf == nil {
				w.unsup("method %s on %s", m.Name(), i.t)
			}
			args := getArgs(os, f, 1)
			args[0] = i.v
			return w.invoke(cf, args, nil, nil)
		}
	}
	switch fn := c.Value.(type) {
	case *ssa.Builtin:
		return k.builtin(fn, c, os)
	case *ssa.Function:
		cf := k.eng.cfnOf(fn)
		return func(w *W, f *frame) Val { return w.invoke(cf, getArgs(os, f, 0), nil, nil) }
	}
	v := k.opd(c.Value)
	return func(w *W, f *frame) Val { return w.callClosure(v.get(f), getArgs(os, f, 0)) }
}

func (k *compiler) deferCall(c *ssa.CallCommon) func(w *W, f *frame) func() {
	os := k.args(c)
	if c.IsInvoke() {
		recv := k.opd(c.Value)
		m := c.Method
		return func(w *W, f *frame) func() {
			i := recv.get(f).p.(*Iface)
			args := getArgs(os, f, 1)
			args[0] = i.v
			return func() { w.invoke(w.method(i.t, m), args, nil, f) }
		}
	}
	switch fn := c.Value.(type) {
	case *ssa.Builtin:
		bc := k.builtinV(fn, c)
		return func(w *W, f *frame) func() {
			args := getArgs(os, f, 0)
			return func() { bc(w, f, args) }
		}
	case *ssa.Function:
		cf := k.eng.cfnOf(fn)
		return func(w *W, f *frame) func() {
			args := getArgs(os, f, 0)
			return func() { w.invoke(cf, args, nil, f) }
		}
	}
	v := k.opd(c.Value)
	return func(w *W, f *frame) func() {
		cl := v.get(f)
		args := getArgs(os, f, 0)
		return func() {
			if cl.p == nil {
				w.rtPanic("nil func in defer")
			}
			x := cl.p.(*Closure)
			if x.native != nil {
				x.native(w, args)
				return
			}
			w.invoke(x.cf, args, x.binds, f)
		}
	}
}

func (w *W) method(t types.Type, m *types.Func) *cfn {
	key := mkey{t, m.Id()}
	if c, ok := w.methodCache[key]; ok {
		return c
	}
	fn := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	var c *cfn
	if fn != nil {
		c = w.eng.cfnOf(fn)
	}
	w.methodCache[key] = c
	return c
}

func (w *W) methodByName(t types.Type, name string) *cfn {
	key := mkey{t, "." + name}
	if c, ok := w.methodCache[key]; ok {
		return c
	}
	var c *cfn
	ms := w.eng.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			if fn := w.eng.prog.MethodValue(ms.At(i)); fn != nil {
				c = w.eng.cfnOf(fn)
			}
		}
	}
	w.methodCache[key] = c
	return c
}

func (k *compiler) builtin(b *ssa.Builtin, c *ssa.CallCommon, os []opd) func(w *W, f *frame) Val {
	bv := k.builtinV(b, c)
	switch b.Name() {
	case "len":
		a := os[0]
		t := c.Args[0].Type()
		switch t.Underlying().(type) {
		case *types.Basic:
			return func(w *W, f *frame) Val { return Val{n: a.get(f).m} }
		case *types.Slice:
			return func(w *W, f *frame) Val { return Val{n: a.get(f).m >> 32} }
		}
	}
	return func(w *W, f *frame) Val { return bv(w, f, getArgs(os, f, 0)) }
}

func (k *compiler) builtinV(b *ssa.Builtin, c *ssa.CallCommon) func(w *W, f *frame, a []Val) Val {
	var ts []types.Type
	for _, x := range c.Args {
		ts = append(ts, x.Type())
	}
	name := b.Name()
	switch name {
	case "len", "cap":
		return func(w *W, f *frame, a []Val) Val {
			switch u := ts[0].Underlying().(type) {
			case *types.Basic:
				return Val{n: a[0].m}
			case *types.Slice:
				if name == "cap" {
					return Val{n: sliceCap(a[0])}
				}
				return Val{n: sliceLen(a[0])}
			case *types.Map:
				if a[0].p == nil {
					return Val{}
				}
				w.access(a[0].p.(*MapObj), 0, false)
				return Val{n: uint64(a[0].p.(*MapObj).n)}
			case *types.Array:
				return Val{n: uint64(u.Len())}
			case *types.Pointer:
				return Val{n: uint64(u.Elem().Underlying().(*types.Array).Len())}
			}
			w.unsup("len of %s", ts[0])
			return Val{}
		}
	case "append":
		et := ts[0].Underlying().(*types.Slice).Elem()
		fromStr := len(ts) > 1 && isStringT(ts[1])
		esz := k.eng.sizes.Sizeof(et)
		return func(w *W, f *frame, a []Val) Val {
			if len(a) == 1 {
				return a[0]
			}
			src := a[1]
			l := sliceLen(src)
			if fromStr {
				l = src.m
			}
			return w.appendSlice(et, esz, a[0], src, l)
		}
	case "copy":
		et := ts[0].Underlying().(*types.Slice).Elem()
		fromStr := isStringT(ts[1])
		return func(w *W, f *frame, a []Val) Val {
			l := sliceLen(a[1])
			if fromStr {
				l = a[1].m
			}
			n := min(l, sliceLen(a[0]))
			if n > 0 {
				w.copySlots(a[0].p.(*Obj), a[0].n, a[1], n, uint64(sizeOf(et)))
			}
			return Val{n: n}
		}
	case "delete":
		kt := ts[0].Underlying().(*types.Map).Key()
		return func(w *W, f *frame, a []Val) Val {
			if a[0].p != nil {
				w.mapDelete(a[0].p.(*MapObj), kt, a[1])
			}
			return Val{}
		}
	case "clear":
		if _, ok := ts[0].Underlying().(*types.Map); ok {
			return func(w *W, f *frame, a []Val) Val {
				if a[0].p != nil {
					w.mapClear(a[0].p.(*MapObj))
				}
				return Val{}
			}
		}
		et := ts[0].Underlying().(*types.Slice).Elem()
		return func(w *W, f *frame, a []Val) Val {
			n := sliceLen(a[0]) * uint64(sizeOf(et))
			for i := uint64(0); i < n; i++ {
				w.store(Val{p: a[0].p, n: a[0].n + i}, Val{})
			}
			return Val{}
		}
	case "panic":
		return func(w *W, f *frame, a []Val) Val {
			if w.spec > 0 {
				panic(specAbort{})
			}
			panic(targetPanic{v: a[0], msg: "panic: " + w.panicText(a[0])})
		}
	case "recover":
		return func(w *W, f *frame, a []Val) Val {
			if f.isDeferCall != nil && f.isDeferCall.panicV != nil && !f.isDeferCall.recovered {
				f.isDeferCall.recovered = true
				return f.isDeferCall.panicV.v
			}
			return Val{}
		}
	case "print", "println":
		return func(w *W, f *frame, a []Val) Val { return Val{} }
	case "min", "max":
		t := ts[0]
		return func(w *W, f *frame, a []Val) Val {
			r := a[0]
			for _, x := range a[1:] {
				var less bool
				if isStringT(t) {
					less = w.cmpBytes(x, r) < 0
				} else if fb := isFloatT(t); fb != 0 {
					if x.p != nil || r.p != nil {
						w.unsup("symbolic float min/max")
					}
					bt := t.Underlying().(*types.Basic)
					less = f64(x, bt) < f64(r, bt)
				} else {
					wd, sg, _ := intInfo(t)
					lt := oUlt
					if sg {
						lt = oSlt
					}
					less = w.truthOf(fromE(w.ctx.bin(lt, w.ctx.toE(x, wd), w.ctx.toE(r, wd)), false))
				}
				if less == (name == "min") {
					r = x
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(w *W, f *frame, a []Val) Val {
			if a[0].p == nil {
				w.rtPanic("value method called using nil pointer")
			}
			return a[0]
		}
	case "StringData":
		return func(w *W, f *frame, a []Val) Val { return Val{p: a[0].p, n: a[0].n} }
	case "SliceData":
		return func(w *W, f *frame, a []Val) Val { return Val{p: a[0].p, n: a[0].n} }
	case "String":
		return func(w *W, f *frame, a []Val) Val {
			l := w.intOf(a[1], 64, true)
			if l == 0 {
				return Val{}
			}
			if a[0].p == nil || a[0].n+l > uint64(len(a[0].p.(*Obj).b)) {
				w.rtPanic("unsafe.String out of range")
			}
			return Val{p: a[0].p, n: a[0].n, m: l}
		}
	case "Slice":
		return func(w *W, f *frame, a []Val) Val {
			l := w.intOf(a[1], 64, true)
			if a[0].p == nil {
				if l != 0 {
					w.rtPanic("unsafe.Slice: ptr is nil and len is not zero")
				}
				return Val{}
			}
			o := a[0].p.(*Obj)
			if o.isB && a[0].n+l > uint64(len(o.b)) {
				w.rtPanic("unsafe.Slice out of range")
			}
			return mkSlice(o, a[0].n, l, l)
		}
	}
	return func(w *W, f *frame, a []Val) Val {
		w.unsup("builtin %s", name)
		return Val{}
	}
}

var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need uint64, esz int64) uint64 {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if esz <= 0 {
		return max(nc, need)
	}
	bytes := nc * uint64(esz)
	for _, c := range sizeClasses {
		if c >= bytes {
			return c / uint64(esz)
		}
	}
	return (bytes + 8191) / 8192 * 8192 / uint64(esz)
}

func (w *W) appendSlice(et types.Type, esz int64, s, src Val, l uint64) Val {
	if l == 0 {
		return s
	}
	ol, oc := sliceLen(s), sliceCap(s)
	st := uint64(sizeOf(et))
	if ol+l <= oc {
		w.copySlots(s.p.(*Obj), s.n+ol*st, src, l, st)
		return mkSlice(s.p.(*Obj), s.n, ol+l, oc)
	}
	nc := growCap(oc, ol+l, esz)
	var o *Obj
	if isByteType(et) {
		o = &Obj{isB: true, b: make([]byte, nc)}
	} else {
		o = &Obj{slots: make([]Val, nc*st)}
	}
	w.alloc(o)
	if ol > 0 {
		w.rawCopy(o, 0, s, ol, st)
	}
	w.rawCopy(o, ol*st, src, l, st)
	return mkSlice(o, 0, ol+l, nc)
}

// copySlots copies n elements with overlap semantics, journaling writes.
func (w *W) copySlots(dst *Obj, off uint64, src Val, n, st uint64) {
	if w.spec > 0 || dst.ro {
		w.wcheck(dst)
	}
	if w.par != nil {
		w.accessN(dst, off, n*st, true)
	}
	if dst.init && !w.inInit {
		for i := uint64(0); i < n*st; i++ {
			w.journalOne(dst, off+i)
		}
	}
	w.rawCopy(dst, off, src, n, st)
}

func (w *W) rawCopy(dst *Obj, off uint64, src Val, n, st uint64) {
	so := src.p.(*Obj)
	if w.par != nil {
		w.accessN(so, src.n, n*st, false)
	}
	if dst.isB {
		putBytes(dst, off, src, n)
		return
	}
	if so.isB {
		for i := uint64(0); i < n; i++ {
			dst.slots[off+i] = byteAt(src, i)
		}
		return
	}
	copy(dst.slots[off:off+n*st], so.slots[src.n:src.n+n*st])
}

func (w *W) traceBytes(v Val, l uint64) {
	if w.par != nil {
		if o, ok := v.p.(*Obj); ok {
			w.accessN(o, v.n, l, false)
		}
	}
}

var _ = fmt.Sprint
