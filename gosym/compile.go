package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type ins func(w *W, f *frame)

type frame struct {
	w           *W
	fn          *cfn
	regs        []Val
	ret         Val
	defers      []func()
	panicV      *targetPanic
	recovered   bool
	isDeferCall *frame // frame whose panic a recover() in this call may stop
	prev        int
}

type opd struct {
	r int32 // >=0 register, -1 constant, -2 global
	g int32
	c Val
}

func (o *opd) get(f *frame) Val {
	if o.r >= 0 {
		return f.regs[o.r]
	}
	if o.r == -1 {
		return o.c
	}
	return Val{p: f.w.global(o.g)}
}

type phiMove struct {
	dst int32
	src opd
	t   types.Type
}

type edge struct {
	to       int
	moves    []phiMove
	conflict bool
}

const (
	tJump = iota
	tIf
	tRet
	tPanic
	tNone
)

type cblock struct {
	idx    int
	ins    []ins
	kind   int
	cond   opd
	succ   [2]edge
	ret    []opd
	pv     opd
	impure bool // statically known side effects
	loop   bool // target of a back edge
	npred  int
	preds  []int
	region []int // candidate blocks for merging, in topological order
	regSet map[int]bool
	regOK  bool
	weight int64
}

type cfn struct {
	name       string
	fn         *ssa.Function
	blocks     []*cblock
	nregs      int
	nparam     int
	nfree      int
	hasDefer   bool
	recoverBlk int
	intrinsic  func(w *W, f *frame, args []Val) Val
	res        *types.Tuple
	once       sync.Once
	err        string
	pkgPath    string
	covered    bool
}

type compiler struct {
	eng  *Engine
	cf   *cfn
	fn   *ssa.Function
	regs map[ssa.Value]int32
}

func (e *Engine) cfnOf(fn *ssa.Function) *cfn {
	if c, ok := e.cfns.Load(fn); ok {
		return c.(*cfn)
	}
	c, _ := e.cfns.LoadOrStore(fn, &cfn{fn: fn, name: fn.String()})
	return c.(*cfn)
}

func (e *Engine) ready(c *cfn) {
	c.once.Do(func() { e.compile(c) })
}

func (e *Engine) globalID(g *ssa.Global) int32 {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if i, ok := e.gids[g]; ok {
		return i
	}
	i := int32(len(e.glist))
	e.glist = append(e.glist, g)
	e.gids[g] = i
	return i
}

func (w *W) global(i int32) *Obj {
	for int(i) >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}
	o := w.globals[i]
	if o == nil {
		w.eng.gmu.Lock()
		g := w.eng.glist[i]
		w.eng.gmu.Unlock()
		o = newObj(g.Type().Underlying().(*types.Pointer).Elem())
		o.init = true
		o.gid = i + 1
		w.globals[i] = o
	}
	return o
}

func (e *Engine) compile(c *cfn) {
	fn := c.fn
	if fn.Pkg != nil {
		c.pkgPath = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		c.pkgPath = fn.Origin().Pkg.Pkg.Path()
	}
	c.res = fn.Signature.Results()
	c.nparam = len(fn.Params)
	c.nfree = len(fn.FreeVars)
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if in, ok := intrinsics[name]; ok {
		c.intrinsic = in
		c.nregs = c.nparam + c.nfree
		return
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != nil && !e.initAllowed(fn.Pkg.Pkg.Path()) {
		c.intrinsic = func(w *W, f *frame, args []Val) Val { return Val{} }
		return
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
	}
	if fn.Blocks == nil {
		c.intrinsic = func(w *W, f *frame, args []Val) Val {
			w.unsup("call of %s (no body)", name)
			return Val{}
		}
		return
	}
	k := &compiler{eng: e, cf: c, fn: fn, regs: map[ssa.Value]int32{}}
	for _, p := range fn.Params {
		k.regs[p] = int32(len(k.regs))
	}
	for _, p := range fn.FreeVars {
		k.regs[p] = int32(len(k.regs))
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				k.regs[v] = int32(len(k.regs))
			}
			if _, ok := i.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = len(k.regs)
	c.recoverBlk = -1
	if fn.Recover != nil {
		c.recoverBlk = fn.Recover.Index
	}
	c.blocks = make([]*cblock, len(fn.Blocks))
	rpo := rpoOrder(fn)
	for i, b := range fn.Blocks {
		cb := &cblock{idx: i, kind: tNone, npred: len(b.Preds)}
		for _, p := range b.Preds {
			cb.preds = append(cb.preds, p.Index)
			if rpo[p.Index] >= rpo[i] {
				cb.loop = true
			}
		}
		c.blocks[i] = cb
		for _, in := range b.Instrs {
			k.instr(cb, b, in)
		}
		cb.weight = int64(len(b.Instrs))
	}
	for i, b := range fn.Blocks {
		if c.blocks[i].kind == tIf {
			k.region(b, c.blocks[i], rpo)
		}
	}
}

func rpoOrder(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	order := make([]int, n)
	for i := range order {
		order[i] = -1
	}
	var post []int
	seen := make([]bool, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	dfs(fn.Blocks[0])
	for i := range post {
		order[post[len(post)-1-i]] = i
	}
	for i := range order {
		if order[i] < 0 {
			order[i] = n + i
		}
	}
	return order
}

// region computes the blocks that can be speculated together after the branch in b.
func (k *compiler) region(b *ssa.BasicBlock, cb *cblock, rpo []int) {
	byOrder := make([]int, 0)
	in := map[int]bool{b.Index: true}
	n := len(k.fn.Blocks)
	pos := make([]int, 2*n+1)
	for i := range pos {
		pos[i] = -1
	}
	for i, o := range rpo {
		pos[o] = i
	}
	w := int64(0)
	for o := rpo[b.Index] + 1; o < n && len(byOrder) < 40; o++ {
		i := pos[o]
		if i < 0 {
			continue
		}
		x := k.cf.blocks[i]
		if x.impure || x.loop || x.kind == tNone || x.kind == tPanic {
			continue
		}
		ok := len(x.preds) > 0
		for _, p := range x.preds {
			if !in[p] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		w += x.weight
		if w > 400 {
			break
		}
		in[i] = true
		byOrder = append(byOrder, i)
	}
	cb.region = byOrder
	delete(in, b.Index)
	cb.regSet = in
}

func (k *compiler) opd(v ssa.Value) opd {
	switch x := v.(type) {
	case *ssa.Const:
		return opd{r: -1, c: constVal(x)}
	case *ssa.Global:
		return opd{r: -2, g: k.eng.globalID(x)}
	case *ssa.Function:
		return opd{r: -1, c: Val{p: &Closure{fn: x, cf: k.eng.cfnOf(x)}}}
	case *ssa.Builtin:
		return opd{r: -1}
	}
	r, ok := k.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), k.fn))
	}
	return opd{r: r}
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		if tp, ok := t.(*types.TypeParam); ok {
			_ = tp
			return Val{}
		}
		return zeroVal(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constStr(constant.StringVal(c.Value))
			}
			r, _ := constant.Int64Val(c.Value)
			return constStr(string(rune(r)))
		case u.Info()&types.IsBoolean != 0:
			return mkBool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := intInfo(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Val{n: canon(uint64(i), w, signed)}
			}
			i, _ := constant.Uint64Val(v)
			return Val{n: canon(i, w, signed)}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if u.Kind() == types.Float32 {
				return Val{n: uint64(math.Float32bits(float32(f)))}
			}
			return Val{n: math.Float64bits(f)}
		}
	}
	return Val{}
}

func f64(v Val, b *types.Basic) float64 {
	if b.Kind() == types.Float32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}
	return math.Float64frombits(v.n)
}

func mkF(x float64, bits int) Val {
	if bits == 32 {
		return Val{n: uint64(math.Float32bits(float32(x)))}
	}
	return Val{n: math.Float64bits(x)}
}

func (k *compiler) edge(from, to *ssa.BasicBlock, which int) edge {
	e := edge{to: to.Index}
	// find predecessor index (the which-th occurrence for duplicate edges)
	pi := -1
	cnt := 0
	for i, p := range to.Preds {
		if p == from {
			if cnt == which || pi < 0 {
				pi = i
			}
			cnt++
		}
	}
	dsts := map[int32]bool{}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		m := phiMove{dst: k.regs[phi], src: k.opd(phi.Edges[pi]), t: phi.Type()}
		if m.src.r >= 0 && dsts[m.src.r] {
			e.conflict = true
		}
		dsts[m.dst] = true
		e.moves = append(e.moves, m)
	}
	return e
}

func (k *compiler) instr(cb *cblock, b *ssa.BasicBlock, in ssa.Instruction) {
	add := func(i ins) { cb.ins = append(cb.ins, i) }
	dst := int32(-1)
	if v, ok := in.(ssa.Value); ok {
		dst = k.regs[v]
	}
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi:
	case *ssa.Jump:
		cb.kind = tJump
		cb.succ[0] = k.edge(b, b.Succs[0], 0)
	case *ssa.If:
		cb.kind = tIf
		cb.cond = k.opd(x.Cond)
		cb.succ[0] = k.edge(b, b.Succs[0], 0)
		w := 0
		if b.Succs[0] == b.Succs[1] {
			w = 1
		}
		cb.succ[1] = k.edge(b, b.Succs[1], w)
	case *ssa.Return:
		cb.kind = tRet
		for _, r := range x.Results {
			cb.ret = append(cb.ret, k.opd(r))
		}
	case *ssa.Panic:
		cb.kind = tPanic
		cb.pv = k.opd(x.X)
		cb.impure = true
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		add(func(w *W, f *frame) { f.regs[dst] = Val{p: w.alloc(newObj(t))} })
	case *ssa.BinOp:
		k.binop(cb, x, dst)
	case *ssa.UnOp:
		k.unop(cb, x, dst)
	case *ssa.Call:
		call := k.call(&x.Call)
		add(func(w *W, f *frame) { f.regs[dst] = call(w, f) })
	case *ssa.Defer:
		cb.impure = true
		call := k.deferCall(&x.Call)
		add(func(w *W, f *frame) {
			if w.spec > 0 {
				panic(specAbort{})
			}
			f.defers = append(f.defers, call(w, f))
		})
	case *ssa.RunDefers:
		cb.impure = true
		add(func(w *W, f *frame) { w.runDefers(f) })
	case *ssa.Go:
		cb.impure = true
		add(func(w *W, f *frame) { w.unsup("go statement in %s", f.fn.name) })
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		cb.impure = true
		add(func(w *W, f *frame) { w.unsup("channel operation in %s", f.fn.name) })
	case *ssa.ChangeInterface:
		a := k.opd(x.X)
		add(func(w *W, f *frame) { f.regs[dst] = a.get(f) })
	case *ssa.ChangeType:
		a := k.opd(x.X)
		add(func(w *W, f *frame) { f.regs[dst] = a.get(f) })
	case *ssa.Convert:
		k.convert(cb, x.X, x.Type(), dst)
	case *ssa.MultiConvert:
		k.convert(cb, x.X, x.Type(), dst)
	case *ssa.Extract:
		a := k.opd(x.Tuple)
		i := x.Index
		add(func(w *W, f *frame) { f.regs[dst] = a.get(f).p.([]Val)[i] })
	case *ssa.Field:
		a := k.opd(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := fieldOff(st, x.Field)
		ft := st.Field(x.Field).Type()
		if isAgg(ft) {
			sz := sizeOf(ft)
			add(func(w *W, f *frame) { f.regs[dst] = Val{p: a.get(f).p.([]Val)[off : off+sz : off+sz]} })
		} else {
			add(func(w *W, f *frame) { f.regs[dst] = a.get(f).p.([]Val)[off] })
		}
	case *ssa.FieldAddr:
		a := k.opd(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := uint64(fieldOff(st, x.Field))
		add(func(w *W, f *frame) {
			v := a.get(f)
			switch o := v.p.(type) {
			case *Obj:
				f.regs[dst] = Val{p: o, n: v.n + off}
			case *symPtr:
				c := *o
				c.add += off
				f.regs[dst] = Val{p: &c}
			default:
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
		})
	case *ssa.Index:
		k.index(cb, x, dst)
	case *ssa.IndexAddr:
		k.indexAddr(cb, x, dst)
	case *ssa.Lookup:
		k.lookup(cb, x, dst)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		cf := k.eng.cfnOf(fn)
		bs := make([]opd, len(x.Bindings))
		for i, v := range x.Bindings {
			bs[i] = k.opd(v)
		}
		add(func(w *W, f *frame) {
			vs := make([]Val, len(bs))
			for i := range bs {
				vs[i] = bs[i].get(f)
			}
			f.regs[dst] = Val{p: &Closure{fn: fn, cf: cf, binds: vs}}
		})
	case *ssa.MakeInterface:
		a := k.opd(x.X)
		t := x.X.Type()
		add(func(w *W, f *frame) { f.regs[dst] = Val{p: &Iface{t: t, v: a.get(f)}} })
	case *ssa.MakeMap:
		add(func(w *W, f *frame) {
			m := newMap()
			m.init = w.inInit
			w.ser++
			m.ser = w.ser
			f.regs[dst] = Val{p: m}
		})
	case *ssa.MakeSlice:
		l, c := k.opd(x.Len), k.opd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lw, ls, _ := intInfo(x.Len.Type())
		cw, cs, _ := intInfo(x.Cap.Type())
		add(func(w *W, f *frame) {
			ln := w.intOf(l.get(f), lw, ls)
			cp := w.intOf(c.get(f), cw, cs)
			f.regs[dst] = w.makeSlice(et, ln, cp)
		})
	case *ssa.MapUpdate:
		cb.impure = true
		m, kk, v := k.opd(x.Map), k.opd(x.Key), k.opd(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		add(func(w *W, f *frame) {
			mv := m.get(f)
			if mv.p == nil {
				w.rtPanic("assignment to entry in nil map")
			}
			w.mapSet(mv.p.(*MapObj), kt, kk.get(f), v.get(f))
		})
	case *ssa.Range:
		a := k.opd(x.X)
		cb.impure = true
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			add(func(w *W, f *frame) { f.regs[dst] = Val{p: w.rangeMap(a.get(f))} })
		} else {
			add(func(w *W, f *frame) { f.regs[dst] = Val{p: &strIter{s: a.get(f)}} })
		}
	case *ssa.Next:
		a := k.opd(x.Iter)
		cb.impure = true
		if x.IsString {
			add(func(w *W, f *frame) {
				it := a.get(f).p.(*strIter)
				if it.pos >= it.s.m {
					f.regs[dst] = Val{p: []Val{{}, {}, {}}}
					return
				}
				r, sz := w.decodeRune(Val{p: it.s.p, n: it.s.n + it.pos, m: it.s.m - it.pos})
				f.regs[dst] = Val{p: []Val{mkBool(true), {n: it.pos}, r}}
				it.pos += sz
			})
		} else {
			var kt, vt types.Type
			tp := x.Type().(*types.Tuple)
			kt, vt = tp.At(1).Type(), tp.At(2).Type()
			_ = kt
			_ = vt
			add(func(w *W, f *frame) {
				it := a.get(f).p.(*mapIter)
				for it.pos < len(it.order) {
					e := it.m.ents[it.order[it.pos]]
					it.pos++
					if e.live {
						f.regs[dst] = Val{p: []Val{mkBool(true), e.k, e.v}}
						return
					}
				}
				f.regs[dst] = Val{p: []Val{{}, {}, {}}}
			})
		}
	case *ssa.Slice:
		k.slice(cb, x, dst)
	case *ssa.SliceToArrayPointer:
		a := k.opd(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		add(func(w *W, f *frame) {
			v := a.get(f)
			if int64(sliceLen(v)) < n {
				w.rtPanic("cannot convert slice to array pointer")
			}
			f.regs[dst] = Val{p: v.p, n: v.n}
		})
	case *ssa.Store:
		addr, v := k.opd(x.Addr), k.opd(x.Val)
		t := x.Val.Type()
		if _, ok := x.Addr.(*ssa.Alloc); !ok {
			// stores through other pointers make speculation unlikely to succeed
			cb.impure = true
		}
		if isAgg(t) {
			n := uint64(sizeOf(t))
			add(func(w *W, f *frame) { w.storeAgg(addr.get(f), v.get(f).p.([]Val), n) })
		} else {
			add(func(w *W, f *frame) { w.store(addr.get(f), v.get(f)) })
		}
	case *ssa.TypeAssert:
		k.typeAssert(cb, x, dst)
	default:
		name := fmt.Sprintf("%T", in)
		cb.impure = true
		add(func(w *W, f *frame) { w.unsup("instruction %s in %s", name, f.fn.name) })
	}
}

func (k *compiler) binop(cb *cblock, x *ssa.BinOp, dst int32) {
	a, b := k.opd(x.X), k.opd(x.Y)
	t := x.X.Type()
	add := func(i ins) { cb.ins = append(cb.ins, i) }
	switch x.Op {
	case token.EQL, token.NEQ:
		neg := x.Op == token.NEQ
		if wd, _, ok := intInfo(t); ok {
			add(func(w *W, f *frame) {
				l, r := a.get(f), b.get(f)
				if l.p == nil && r.p == nil {
					f.regs[dst] = mkBool((l.n == r.n) != neg)
					return
				}
				e := w.ctx.bin(oEq, w.ctx.toE(l, wd), w.ctx.toE(r, wd))
				if neg {
					e = w.ctx.not(e)
				}
				f.regs[dst] = fromE(e, false)
			})
			return
		}
		// comparison of an interface with a concrete value does not occur in SSA
		add(func(w *W, f *frame) {
			v := w.eqVal(t, a.get(f), b.get(f))
			if neg {
				if v.p == nil {
					v.n ^= 1
				} else {
					v = fromE(w.ctx.not(v.p.(*Expr)), false)
				}
			}
			f.regs[dst] = v
		})
		return
	}
	if isStringT(t) {
		switch x.Op {
		case token.ADD:
			add(func(w *W, f *frame) { f.regs[dst] = w.concat(a.get(f), b.get(f)) })
		default:
			op := x.Op
			add(func(w *W, f *frame) {
				c := w.cmpBytes(a.get(f), b.get(f))
				var r bool
				switch op {
				case token.LSS:
					r = c < 0
				case token.LEQ:
					r = c <= 0
				case token.GTR:
					r = c > 0
				case token.GEQ:
					r = c >= 0
				}
				f.regs[dst] = mkBool(r)
			})
		}
		return
	}
	if fb := isFloatT(t); fb != 0 {
		bt := t.Underlying().(*types.Basic)
		op := x.Op
		add(func(w *W, f *frame) {
			l, r := a.get(f), b.get(f)
			if l.p == nil && r.p == nil {
				p, q := f64(l, bt), f64(r, bt)
				switch op {
				case token.ADD:
					f.regs[dst] = mkF(p+q, fb)
				case token.SUB:
					f.regs[dst] = mkF(p-q, fb)
				case token.MUL:
					f.regs[dst] = mkF(p*q, fb)
				case token.QUO:
					f.regs[dst] = mkF(p/q, fb)
				case token.LSS:
					f.regs[dst] = mkBool(p < q)
				case token.LEQ:
					f.regs[dst] = mkBool(p <= q)
				case token.GTR:
					f.regs[dst] = mkBool(p > q)
				case token.GEQ:
					f.regs[dst] = mkBool(p >= q)
				}
				return
			}
			if fb != 64 {
				w.unsup("symbolic float32")
			}
			p, q := w.ctx.toE(l, wFP), w.ctx.toE(r, wFP)
			var e *Expr
			switch op {
			case token.ADD:
				e = w.ctx.bin(oFAdd, p, q)
			case token.SUB:
				e = w.ctx.bin(oFSub, p, q)
			case token.MUL:
				e = w.ctx.bin(oFMul, p, q)
			case token.QUO:
				e = w.ctx.bin(oFDiv, p, q)
			case token.LSS:
				e = w.ctx.bin(oFLt, p, q)
			case token.LEQ:
				e = w.ctx.bin(oFLe, p, q)
			case token.GTR:
				e = w.ctx.bin(oFLt, q, p)
			case token.GEQ:
				e = w.ctx.bin(oFLe, q, p)
			}
			f.regs[dst] = fromE(e, false)
		})
		return
	}
	wd, signed, ok := intInfo(t)
	if !ok {
		if isBoolT(t) {
			op := x.Op
			add(func(w *W, f *frame) {
				l, r := w.ctx.toE(a.get(f), 0), w.ctx.toE(b.get(f), 0)
				switch op {
				case token.AND, token.LAND:
					f.regs[dst] = fromE(w.ctx.and(l, r), false)
				case token.OR, token.LOR:
					f.regs[dst] = fromE(w.ctx.or(l, r), false)
				default:
					w.unsup("bool op %s", op)
				}
			})
			return
		}
		add(func(w *W, f *frame) { w.unsup("binop %s on %s", x.Op, t) })
		return
	}
	sw, ss, _ := intInfo(x.Y.Type())
	op := x.Op
	cmp := func(l, r uint64) bool {
		switch op {
		case token.LSS:
			if signed {
				return int64(l) < int64(r)
			}
			return l < r
		case token.LEQ:
			if signed {
				return int64(l) <= int64(r)
			}
			return l <= r
		case token.GTR:
			if signed {
				return int64(l) > int64(r)
			}
			return l > r
		}
		if signed {
			return int64(l) >= int64(r)
		}
		return l >= r
	}
	lt := oUlt
	if signed {
		lt = oSlt
	}
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		add(func(w *W, f *frame) {
			l, r := a.get(f), b.get(f)
			if l.p == nil && r.p == nil {
				f.regs[dst] = mkBool(cmp(l.n, r.n))
				return
			}
			p, q := w.ctx.toE(l, wd), w.ctx.toE(r, wd)
			var e *Expr
			switch op {
			case token.LSS:
				e = w.ctx.bin(lt, p, q)
			case token.LEQ:
				e = w.ctx.not(w.ctx.bin(lt, q, p))
			case token.GTR:
				e = w.ctx.bin(lt, q, p)
			case token.GEQ:
				e = w.ctx.not(w.ctx.bin(lt, p, q))
			}
			f.regs[dst] = fromE(e, false)
		})
		return
	case token.ADD:
		add(func(w *W, f *frame) {
			l, r := a.get(f), b.get(f)
			if l.p == nil && r.p == nil {
				f.regs[dst] = Val{n: canon(l.n+r.n, wd, signed)}
				return
			}
			f.regs[dst] = fromE(w.ctx.bin(oAdd, w.ctx.toE(l, wd), w.ctx.toE(r, wd)), signed)
		})
		return
	case token.SUB:
		add(func(w *W, f *frame) {
			l, r := a.get(f), b.get(f)
			if l.p == nil && r.p == nil {
				f.regs[dst] = Val{n: canon(l.n-r.n, wd, signed)}
				return
			}
			f.regs[dst] = fromE(w.ctx.bin(oSub, w.ctx.toE(l, wd), w.ctx.toE(r, wd)), signed)
		})
		return
	}
	add(func(w *W, f *frame) {
		l, r := a.get(f), b.get(f)
		if op == token.QUO || op == token.REM {
			if r.p != nil {
				if w.branch(w.ctx.bin(oEq, r.p.(*Expr), w.ctx.bv(0, wd))) {
					w.rtPanic("integer divide by zero")
				}
			} else if r.n == 0 {
				w.rtPanic("integer divide by zero")
			}
		}
		if op == token.SHL || op == token.SHR {
			if r.p != nil {
				r.n = w.intOf(r, sw, ss)
				r.p = nil
			}
			if ss && int64(r.n) < 0 {
				w.rtPanic("negative shift amount")
			}
		}
		if l.p == nil && r.p == nil {
			var v uint64
			switch op {
			case token.MUL:
				v = l.n * r.n
			case token.QUO:
				if signed {
					if int64(r.n) == -1 {
						v = -l.n
					} else {
						v = uint64(int64(l.n) / int64(r.n))
					}
				} else {
					v = l.n / r.n
				}
			case token.REM:
				if signed {
					if int64(r.n) == -1 {
						v = 0
					} else {
						v = uint64(int64(l.n) % int64(r.n))
					}
				} else {
					v = l.n % r.n
				}
			case token.AND:
				v = l.n & r.n
			case token.OR:
				v = l.n | r.n
			case token.XOR:
				v = l.n ^ r.n
			case token.AND_NOT:
				v = l.n &^ r.n
			case token.SHL:
				v = l.n << r.n
			case token.SHR:
				if signed {
					v = uint64(int64(l.n) >> r.n)
				} else {
					v = l.n >> r.n
				}
			default:
				w.unsup("int op %s", op)
			}
			f.regs[dst] = Val{n: canon(v, wd, signed)}
			return
		}
		p := w.ctx.toE(l, wd)
		if op == token.SHL || op == token.SHR {
			amt := r.n
			if amt > 64 {
				amt = 64
			}
			q := w.ctx.bv(amt, wd)
			if amt >= uint64(wd) {
				if op == token.SHR && signed {
					q = w.ctx.bv(uint64(wd)-1, wd)
				} else {
					f.regs[dst] = Val{}
					return
				}
			}
			o := oShl
			if op == token.SHR {
				o = oLShr
				if signed {
					o = oAShr
				}
			}
			f.regs[dst] = fromE(w.ctx.bin(o, p, q), signed)
			return
		}
		q := w.ctx.toE(r, wd)
		var e *Expr
		switch op {
		case token.MUL:
			e = w.ctx.bin(oMul, p, q)
		case token.QUO:
			if signed {
				e = w.ctx.bin(oSDiv, p, q)
			} else {
				e = w.ctx.bin(oUDiv, p, q)
			}
		case token.REM:
			if signed {
				e = w.ctx.bin(oSRem, p, q)
			} else {
				e = w.ctx.bin(oURem, p, q)
			}
		case token.AND:
			e = w.ctx.bin(oBAnd, p, q)
		case token.OR:
			e = w.ctx.bin(oBOr, p, q)
		case token.XOR:
			e = w.ctx.bin(oBXor, p, q)
		case token.AND_NOT:
			e = w.ctx.bin(oBAnd, p, w.ctx.bin(oBXor, q, w.ctx.bv(^uint64(0), wd)))
		default:
			w.unsup("int op %s", op)
		}
		f.regs[dst] = fromE(e, signed)
	})
}

func (k *compiler) unop(cb *cblock, x *ssa.UnOp, dst int32) {
	a := k.opd(x.X)
	add := func(i ins) { cb.ins = append(cb.ins, i) }
	t := x.X.Type()
	switch x.Op {
	case token.MUL:
		et := x.Type()
		if isAgg(et) {
			n := uint64(sizeOf(et))
			add(func(w *W, f *frame) { f.regs[dst] = Val{p: w.loadAgg(a.get(f), n)} })
		} else {
			wd, sg, isInt := intInfo(et)
			if isBoolT(et) {
				wd, isInt = 0, true
			}
			add(func(w *W, f *frame) {
				v := a.get(f)
				if o, ok := v.p.(*Obj); ok {
					if w.par != nil {
						w.access(o, v.n, false)
					}
					if o.isB {
						if o.s != nil {
							if e := o.s[v.n]; e != nil {
								f.regs[dst] = Val{p: e}
								return
							}
						}
						f.regs[dst] = Val{n: uint64(o.b[v.n])}
						return
					}
					f.regs[dst] = o.slots[v.n]
					return
				}
				f.regs[dst] = w.loadSym(v, wd, sg, isInt)
			})
		}
	case token.NOT:
		add(func(w *W, f *frame) {
			v := a.get(f)
			if v.p == nil {
				f.regs[dst] = Val{n: v.n ^ 1}
			} else {
				f.regs[dst] = fromE(w.ctx.not(v.p.(*Expr)), false)
			}
		})
	case token.SUB:
		if fb := isFloatT(t); fb != 0 {
			bt := t.Underlying().(*types.Basic)
			add(func(w *W, f *frame) {
				v := a.get(f)
				if v.p == nil {
					f.regs[dst] = mkF(-f64(v, bt), fb)
				} else {
					f.regs[dst] = fromE(w.ctx.mk(oFNeg, wFP, 0, v.p.(*Expr), nil, nil), false)
				}
			})
			return
		}
		wd, sg, _ := intInfo(t)
		add(func(w *W, f *frame) {
			v := a.get(f)
			if v.p == nil {
				f.regs[dst] = Val{n: canon(-v.n, wd, sg)}
			} else {
				f.regs[dst] = fromE(w.ctx.bin(oSub, w.ctx.bv(0, wd), v.p.(*Expr)), sg)
			}
		})
	case token.XOR:
		wd, sg, _ := intInfo(t)
		add(func(w *W, f *frame) {
			v := a.get(f)
			if v.p == nil {
				f.regs[dst] = Val{n: canon(^v.n, wd, sg)}
			} else {
				f.regs[dst] = fromE(w.ctx.bin(oBXor, v.p.(*Expr), w.ctx.bv(^uint64(0), wd)), sg)
			}
		})
	default:
		cb.impure = true
		add(func(w *W, f *frame) { w.unsup("unop %s", x.Op) })
	}
}

func (k *compiler) convert(cb *cblock, xv ssa.Value, to types.Type, dst int32) {
	a := k.opd(xv)
	from := xv.Type()
	add := func(i ins) { cb.ins = append(cb.ins, i) }
	fw, fs, fint := intInfo(from)
	tw, ts, tint := intInfo(to)
	ff, tf := isFloatT(from), isFloatT(to)
	fu, tu := from.Underlying(), to.Underlying()
	isUP := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Kind() == types.UnsafePointer
	}
	switch {
	case isUP(fu) && isUP(tu):
		add(func(w *W, f *frame) { f.regs[dst] = a.get(f) })
	case isUP(tu):
		if p, ok := fu.(*types.Pointer); ok {
			et := p.Elem()
			add(func(w *W, f *frame) {
				v := a.get(f)
				if v.p == nil {
					f.regs[dst] = Val{}
					return
				}
				f.regs[dst] = Val{p: &uPtr{v: v, t: et}}
			})
			return
		}
		add(func(w *W, f *frame) { w.unsup("uintptr to unsafe.Pointer") })
	case isUP(fu):
		if p, ok := tu.(*types.Pointer); ok {
			et := p.Elem()
			add(func(w *W, f *frame) {
				v := a.get(f)
				if v.p == nil {
					f.regs[dst] = Val{}
					return
				}
				u := v.p.(*uPtr)
				if types.Identical(u.t.Underlying(), et.Underlying()) {
					f.regs[dst] = u.v
					return
				}
				if sl, ok := u.t.Underlying().(*types.Slice); ok && isByteType(sl.Elem()) && isStringT(et) {
					s := w.load1(u.v)
					o := w.alloc(&Obj{slots: []Val{{p: s.p, n: s.n, m: sliceLen(s)}}})
					if sliceLen(s) == 0 {
						o.slots[0] = Val{}
					}
					f.regs[dst] = Val{p: o}
					return
				}
				if sameSizeNumbers(u.t, et) {
					x := w.load1(u.v)
					if e, ok := x.p.(*Expr); ok {
						x = Val{n: w.concretize(e)}
					}
					f.regs[dst] = Val{p: w.alloc(&Obj{slots: []Val{x}})}
					return
				}
				w.unsup("unsafe pointer cast %s to %s", u.t, et)
			})
			return
		}
		add(func(w *W, f *frame) { w.unsup("unsafe.Pointer to uintptr") })
	case fint && tint:
		add(func(w *W, f *frame) {
			v := a.get(f)
			if v.p == nil {
				f.regs[dst] = Val{n: canon(v.n, tw, ts)}
				return
			}
			e := v.p.(*Expr)
			switch {
			case tw > fw && fs:
				e = w.ctx.ext(oSExt, e, tw)
			case tw > fw:
				e = w.ctx.ext(oZExt, e, tw)
			case tw < fw:
				e = w.ctx.ext(oTrunc, e, tw)
			}
			f.regs[dst] = fromE(e, ts)
		})
	case fint && tf != 0:
		add(func(w *W, f *frame) {
			v := a.get(f)
			if v.p == nil {
				if fs {
					f.regs[dst] = mkF(float64(int64(v.n)), tf)
				} else {
					f.regs[dst] = mkF(float64(v.n), tf)
				}
				return
			}
			if tf != 64 {
				w.unsup("symbolic float32")
			}
			o := oFFromU
			if fs {
				o = oFFromS
			}
			f.regs[dst] = fromE(w.ctx.ext(o, v.p.(*Expr), wFP), false)
		})
	case ff != 0 && tint:
		bt := fu.(*types.Basic)
		add(func(w *W, f *frame) {
			v := a.get(f)
			if v.p != nil {
				v = Val{n: w.concretize(v.p.(*Expr))}
			}
			x := f64(v, bt)
			if ts {
				f.regs[dst] = Val{n: canon(uint64(int64(x)), tw, ts)}
			} else {
				f.regs[dst] = Val{n: canon(uint64(x), tw, ts)}
			}
		})
	case ff != 0 && tf != 0:
		bt := fu.(*types.Basic)
		add(func(w *W, f *frame) {
			v := a.get(f)
			if v.p != nil {
				if tf == 64 && ff == 64 {
					f.regs[dst] = v
					return
				}
				v = Val{n: w.concretize(v.p.(*Expr))}
			}
			f.regs[dst] = mkF(f64(v, bt), tf)
		})
	case isStringT(to):
		switch u := fu.(type) {
		case *types.Slice:
			if isByteType(u.Elem()) {
				add(func(w *W, f *frame) {
					v := a.get(f)
					l := sliceLen(v)
					if l == 0 {
						f.regs[dst] = Val{}
						return
					}
					w.traceBytes(v, l)
					o := copyBytes(v, l)
					o.ro = true
					f.regs[dst] = Val{p: w.alloc(o), m: l}
				})
				return
			}
			add(func(w *W, f *frame) { // []rune
				v := a.get(f)
				r := Val{}
				for i := uint64(0); i < sliceLen(v); i++ {
					r = w.concat(r, w.runeStr(v.p.(*Obj).slots[v.n+i]))
				}
				f.regs[dst] = r
			})
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				add(func(w *W, f *frame) { f.regs[dst] = a.get(f) })
				return
			}
			add(func(w *W, f *frame) {
				v := a.get(f)
				if e, ok := v.p.(*Expr); ok && e.w != 32 {
					if e.w < 32 {
						v = Val{p: w.ctx.ext(oZExt, e, 32)}
					} else {
						v = Val{n: w.concretize(e)}
					}
				}
				f.regs[dst] = w.runeStr(v)
			})
		}
	case isStringT(from):
		u := tu.(*types.Slice)
		if isByteType(u.Elem()) {
			add(func(w *W, f *frame) {
				v := a.get(f)
				o := w.alloc(copyBytes(v, v.m))
				f.regs[dst] = mkSlice(o, 0, v.m, v.m)
			})
			return
		}
		add(func(w *W, f *frame) {
			v := a.get(f)
			var rs []Val
			for pos := uint64(0); pos < v.m; {
				r, sz := w.decodeRune(Val{p: v.p, n: v.n + pos, m: v.m - pos})
				rs = append(rs, r)
				pos += sz
			}
			f.regs[dst] = mkSlice(w.alloc(&Obj{slots: rs}), 0, uint64(len(rs)), uint64(len(rs)))
		})
	default:
		add(func(w *W, f *frame) { f.regs[dst] = a.get(f) })
	}
}

func (k *compiler) index(cb *cblock, x *ssa.Index, dst int32) {
	a, i := k.opd(x.X), k.opd(x.Index)
	iw, is, _ := intInfo(x.Index.Type())
	add := func(n ins) { cb.ins = append(cb.ins, n) }
	if isStringT(x.X.Type()) {
		add(func(w *W, f *frame) {
			s, iv := a.get(f), i.get(f)
			if iv.p != nil {
				f.regs[dst] = w.strIndexSym(s, iv, iw, is)
				return
			}
			if iv.n >= s.m {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), s.m))
			}
			f.regs[dst] = byteAt(s, iv.n)
		})
		return
	}
	arr := x.X.Type().Underlying().(*types.Array)
	sz := uint64(sizeOf(arr.Elem()))
	et := arr.Elem()
	n := uint64(arr.Len())
	wd, sg, isInt := intInfo(et)
	add(func(w *W, f *frame) {
		vs := a.get(f).p.([]Val)
		iv := i.get(f)
		if iv.p != nil && sz == 1 {
			e := w.boundIdx(iv, iw, is, n)
			f.regs[dst] = w.loadSym(Val{p: &symPtr{o: &Obj{slots: vs}, stride: 1, idx: e, n: n}}, wd, sg, isInt)
			return
		}
		ix := w.intOf(iv, iw, is)
		if ix >= n {
			w.rtPanic("index out of range")
		}
		f.regs[dst] = subVal(vs, int(ix*sz), et)
	})
}

func (k *compiler) indexAddr(cb *cblock, x *ssa.IndexAddr, dst int32) {
	a, i := k.opd(x.X), k.opd(x.Index)
	iw, is, _ := intInfo(x.Index.Type())
	add := func(n ins) { cb.ins = append(cb.ins, n) }
	if sl, ok := x.X.Type().Underlying().(*types.Slice); ok {
		st := uint64(sizeOf(sl.Elem()))
		add(func(w *W, f *frame) {
			s, iv := a.get(f), i.get(f)
			l := sliceLen(s)
			if iv.p != nil {
				e := w.boundIdx(iv, iw, is, l)
				if e.op == oConst {
					f.regs[dst] = Val{p: s.p, n: s.n + e.k*st}
					return
				}
				f.regs[dst] = Val{p: &symPtr{o: s.p.(*Obj), base: s.n, stride: st, idx: e, n: l}}
				return
			}
			if iv.n >= l {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), l))
			}
			f.regs[dst] = Val{p: s.p, n: s.n + iv.n*st}
		})
		return
	}
	arr := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	st := uint64(sizeOf(arr.Elem()))
	n := uint64(arr.Len())
	add(func(w *W, f *frame) {
		p, iv := a.get(f), i.get(f)
		o, ok := p.p.(*Obj)
		if !ok {
			if p.p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			w.unsup("index through symbolic pointer")
		}
		if iv.p != nil {
			e := w.boundIdx(iv, iw, is, n)
			if e.op == oConst {
				f.regs[dst] = Val{p: o, n: p.n + e.k*st}
				return
			}
			f.regs[dst] = Val{p: &symPtr{o: o, base: p.n, stride: st, idx: e, n: n}}
			return
		}
		if iv.n >= n {
			w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), n))
		}
		f.regs[dst] = Val{p: o, n: p.n + iv.n*st}
	})
}

// boundIdx proves or forks the bounds of a symbolic index and returns it as expression.
func (w *W) boundIdx(iv Val, iw uint8, signed bool, n uint64) *Expr {
	e := iv.p.(*Expr)
	if iw < 64 {
		if signed {
			e = w.ctx.ext(oSExt, e, 64)
		} else {
			e = w.ctx.ext(oZExt, e, 64)
		}
	}
	in := w.ctx.bin(oUlt, e, w.ctx.bv(n, 64))
	if !w.truthOf(fromE(in, false)) {
		w.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return e
}

func (k *compiler) lookup(cb *cblock, x *ssa.Lookup, dst int32) {
	a, i := k.opd(x.X), k.opd(x.Index)
	add := func(n ins) { cb.ins = append(cb.ins, n) }
	if isStringT(x.X.Type()) {
		iw, is, _ := intInfo(x.Index.Type())
		add(func(w *W, f *frame) {
			s, iv := a.get(f), i.get(f)
			if iv.p != nil {
				f.regs[dst] = w.strIndexSym(s, iv, iw, is)
				return
			}
			if iv.n >= s.m {
				w.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(iv.n), s.m))
			}
			f.regs[dst] = byteAt(s, iv.n)
		})
		return
	}
	mt := x.X.Type().Underlying().(*types.Map)
	zero := zeroVal(mt.Elem())
	add(func(w *W, f *frame) {
		mv := a.get(f)
		var m *MapObj
		if mv.p != nil {
			m = mv.p.(*MapObj)
			w.access(m, 0, false)
		}
		j := w.mapFind(m, mt.Key(), i.get(f))
		r := zero
		if j >= 0 {
			r = m.ents[j].v
		}
		if x.CommaOk {
			f.regs[dst] = Val{p: []Val{r, mkBool(j >= 0)}}
		} else {
			f.regs[dst] = r
		}
	})
}

func (k *compiler) slice(cb *cblock, x *ssa.Slice, dst int32) {
	a := k.opd(x.X)
	var lo, hi, mx opd
	type ii struct {
		w uint8
		s bool
	}
	var li, hI, mi ii
	if x.Low != nil {
		lo = k.opd(x.Low)
		li.w, li.s, _ = intInfo(x.Low.Type())
	}
	if x.High != nil {
		hi = k.opd(x.High)
		hI.w, hI.s, _ = intInfo(x.High.Type())
	}
	if x.Max != nil {
		mx = k.opd(x.Max)
		mi.w, mi.s, _ = intInfo(x.Max.Type())
	}
	hasLo, hasHi, hasMax := x.Low != nil, x.High != nil, x.Max != nil
	add := func(n ins) { cb.ins = append(cb.ins, n) }
	if isStringT(x.X.Type()) {
		add(func(w *W, f *frame) {
			s := a.get(f)
			l, h := uint64(0), s.m
			if hasLo {
				l = w.intOf(lo.get(f), li.w, li.s)
			}
			if hasHi {
				h = w.intOf(hi.get(f), hI.w, hI.s)
			}
			if h > s.m || l > h {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", int64(l), int64(h), s.m))
			}
			if l == h {
				f.regs[dst] = Val{}
				return
			}
			f.regs[dst] = Val{p: s.p, n: s.n + l, m: h - l}
		})
		return
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		arr := pt.Elem().Underlying().(*types.Array)
		st := uint64(sizeOf(arr.Elem()))
		n := uint64(arr.Len())
		add(func(w *W, f *frame) {
			p := a.get(f)
			if p.p == nil {
				w.rtPanic("invalid memory address or nil pointer dereference")
			}
			l, h, m := uint64(0), n, n
			if hasLo {
				l = w.intOf(lo.get(f), li.w, li.s)
			}
			if hasHi {
				h = w.intOf(hi.get(f), hI.w, hI.s)
			}
			if hasMax {
				m = w.intOf(mx.get(f), mi.w, mi.s)
			}
			if m > n || h > m || l > h {
				w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d]", int64(l), int64(h), int64(m)))
			}
			f.regs[dst] = mkSlice(p.p.(*Obj), p.n+l*st, h-l, m-l)
		})
		return
	}
	st := uint64(sizeOf(x.X.Type().Underlying().(*types.Slice).Elem()))
	add(func(w *W, f *frame) {
		s := a.get(f)
		c := sliceCap(s)
		l, h, m := uint64(0), sliceLen(s), c
		if hasLo {
			l = w.intOf(lo.get(f), li.w, li.s)
		}
		if hasHi {
			h = w.intOf(hi.get(f), hI.w, hI.s)
		}
		if hasMax {
			m = w.intOf(mx.get(f), mi.w, mi.s)
		}
		if m > c || h > m || l > h {
			w.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", int64(l), int64(h), c))
		}
		if s.p == nil {
			f.regs[dst] = Val{}
			return
		}
		f.regs[dst] = mkSlice(s.p.(*Obj), s.n+l*st, h-l, m-l)
	})
}

func (k *compiler) typeAssert(cb *cblock, x *ssa.TypeAssert, dst int32) {
	a := k.opd(x.X)
	t := x.AssertedType
	toIface := isIfaceT(t)
	zero := zeroVal(t)
	cb.ins = append(cb.ins, func(w *W, f *frame) {
		v := a.get(f)
		ok := false
		var r Val
		if v.p != nil {
			i := v.p.(*Iface)
			if toIface {
				if w.eng.implements(i.t, t) {
					ok, r = true, v
				}
			} else if i.t == t || types.Identical(i.t, t) {
				ok, r = true, i.v
			}
		}
		if x.CommaOk {
			if !ok {
				r = zero
			}
			f.regs[dst] = Val{p: []Val{r, mkBool(ok)}}
			return
		}
		if !ok {
			w.rtPanic("interface conversion failed to " + t.String())
		}
		f.regs[dst] = r
	})
}

// sameSizeNumbers reports a bit cast between an integer and a float type, whose
// values share one representation here.
func sameSizeNumbers(a, b types.Type) bool {
	x, ok1 := a.Underlying().(*types.Basic)
	y, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	is := func(k1, k2 types.BasicKind) bool {
		return x.Kind() == k1 && y.Kind() == k2 || x.Kind() == k2 && y.Kind() == k1
	}
	return is(types.Uint64, types.Float64) || is(types.Uint32, types.Float32)
}
