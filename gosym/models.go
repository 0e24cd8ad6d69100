package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type intrin = func(w *W, f *frame, a []Val) Val

var intrinsics map[string]intrin

// modelled lists functions replaced by models, for the evidence.
func bytesLen(v Val, str bool) uint64 {
	if str {
		return v.m
	}
	return sliceLen(v)
}

func (w *W) indexByte(v Val, n uint64, c Val, last bool) Val {
	ce := c
	step := func(i uint64) bool {
		b := byteAt(v, i)
		if b.p == nil && ce.p == nil {
			return b.n == ce.n&0xff
		}
		return w.branch(w.ctx.bin(oEq, w.ctx.toE(b, 8), w.ctx.toE(ce, 8)))
	}
	if last {
		for i := n; i > 0; i-- {
			if step(i - 1) {
				return Val{n: i - 1}
			}
		}
	} else {
		for i := uint64(0); i < n; i++ {
			if step(i) {
				return Val{n: i}
			}
		}
	}
	return Val{n: ^uint64(0)}
}

func sub(v Val, off uint64) Val { return Val{p: v.p, n: v.n + off, m: v.m} }

func (w *W) indexSub(s Val, n uint64, t Val, k uint64, last bool) Val {
	if k > n {
		return Val{n: ^uint64(0)}
	}
	if last {
		for i := n - k + 1; i > 0; i-- {
			if k == 0 || w.truthOf(w.eqBytes(sub(s, i-1), k, t, k)) {
				return Val{n: i - 1}
			}
		}
		return Val{n: ^uint64(0)}
	}
	for i := uint64(0); i+k <= n; i++ {
		if k == 0 || w.truthOf(w.eqBytes(sub(s, i), k, t, k)) {
			return Val{n: i}
		}
	}
	return Val{n: ^uint64(0)}
}

func (w *W) contains(s Val, n uint64, t Val, k uint64) Val {
	if k == 0 {
		return mkBool(true)
	}
	if k > n {
		return mkBool(false)
	}
	r := w.ctx.F
	for i := uint64(0); i+k <= n; i++ {
		c := w.eqBytes(sub(s, i), k, t, k)
		if c.p == nil && c.n == 0 {
			continue
		}
		r = w.ctx.or(r, w.ctx.toE(c, 0))
		if r == w.ctx.T {
			break
		}
	}
	return fromE(r, false)
}

func (w *W) needConcStr(v Val) string {
	if v.m == 0 {
		return ""
	}
	bs := make([]byte, v.m)
	for i := range bs {
		b := byteAt(v, uint64(i))
		bs[i] = byte(w.intOf(b, 8, false))
	}
	return string(bs)
}

func constLabel(v Val) string {
	s, ok := strConc(v, v.m)
	if !ok {
		return "?"
	}
	return s
}

func nop(w *W, f *frame, a []Val) Val { return Val{} }

func tuple(vs ...Val) Val { return Val{p: vs} }

// noSpec makes an intrinsic with side effects abort speculation.
func noSpec(fn intrin) intrin {
	return func(w *W, f *frame, a []Val) Val {
		if w.spec > 0 {
			panic(specAbort{})
		}
		return fn(w, f, a)
	}
}

func init() {
	m := map[string]intrin{}
	intrinsics = m
	// --- byte level primitives ---
	m["internal/bytealg.IndexByteString"] = func(w *W, f *frame, a []Val) Val { return w.indexByte(a[0], a[0].m, a[1], false) }
	m["internal/bytealg.IndexByte"] = func(w *W, f *frame, a []Val) Val { return w.indexByte(a[0], sliceLen(a[0]), a[1], false) }
	m["internal/bytealg.LastIndexByteString"] = func(w *W, f *frame, a []Val) Val { return w.indexByte(a[0], a[0].m, a[1], true) }
	m["internal/bytealg.LastIndexByte"] = func(w *W, f *frame, a []Val) Val { return w.indexByte(a[0], sliceLen(a[0]), a[1], true) }
	m["strings.IndexByte"] = m["internal/bytealg.IndexByteString"]
	m["internal/stringslite.IndexByte"] = m["internal/bytealg.IndexByteString"]
	m["bytes.IndexByte"] = m["internal/bytealg.IndexByte"]
	m["strings.Index"] = func(w *W, f *frame, a []Val) Val { return w.indexSub(a[0], a[0].m, a[1], a[1].m, false) }
	m["internal/stringslite.Index"] = m["strings.Index"]
	m["strings.LastIndex"] = func(w *W, f *frame, a []Val) Val { return w.indexSub(a[0], a[0].m, a[1], a[1].m, true) }
	m["bytes.Index"] = func(w *W, f *frame, a []Val) Val {
		return w.indexSub(a[0], sliceLen(a[0]), a[1], sliceLen(a[1]), false)
	}
	m["bytes.LastIndex"] = func(w *W, f *frame, a []Val) Val {
		return w.indexSub(a[0], sliceLen(a[0]), a[1], sliceLen(a[1]), true)
	}
	m["strings.Contains"] = func(w *W, f *frame, a []Val) Val { return w.contains(a[0], a[0].m, a[1], a[1].m) }
	m["bytes.Contains"] = func(w *W, f *frame, a []Val) Val {
		return w.contains(a[0], sliceLen(a[0]), a[1], sliceLen(a[1]))
	}
	cnt := func(str bool) intrin {
		return func(w *W, f *frame, a []Val) Val {
			n := uint64(0)
			for i := uint64(0); i < bytesLen(a[0], str); i++ {
				if w.truthOf(fromE(w.ctx.bin(oEq, w.ctx.toE(byteAt(a[0], i), 8), w.ctx.toE(a[1], 8)), false)) {
					n++
				}
			}
			return Val{n: n}
		}
	}
	m["internal/bytealg.CountString"] = cnt(true)
	m["internal/bytealg.Count"] = cnt(false)
	m["internal/bytealg.Equal"] = func(w *W, f *frame, a []Val) Val { return w.eqBytes(a[0], sliceLen(a[0]), a[1], sliceLen(a[1])) }
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	cmpS := func(w *W, f *frame, a []Val) Val {
		return Val{n: uint64(int64(w.cmpRange(a[0], a[0].m, a[1], a[1].m)))}
	}
	m["internal/bytealg.CompareString"] = cmpS
	m["strings.Compare"] = cmpS
	cmpB := func(w *W, f *frame, a []Val) Val {
		return Val{n: uint64(int64(w.cmpRange(a[0], sliceLen(a[0]), a[1], sliceLen(a[1]))))}
	}
	m["internal/bytealg.Compare"] = cmpB
	m["bytes.Compare"] = cmpB
	m["internal/bytealg.MakeNoZero"] = func(w *W, f *frame, a []Val) Val {
		n := w.intOf(a[0], 64, true)
		return w.makeSlice(types.Typ[types.Uint8], n, growCap(0, n, 1))
	}
	m["(*strings.Builder).copyCheck"] = nop
	m["internal/abi.NoEscape"] = func(w *W, f *frame, a []Val) Val { return a[0] }
	m["internal/abi.Escape"] = func(w *W, f *frame, a []Val) Val { return a[0] }
	m["strings.Clone"] = func(w *W, f *frame, a []Val) Val {
		if a[0].m == 0 {
			return Val{}
		}
		o := copyBytes(a[0], a[0].m)
		o.ro = true
		return Val{p: w.alloc(o), m: a[0].m}
	}
	m["internal/stringslite.Clone"] = m["strings.Clone"]

	// reflection is not encoded; the type descriptors encoding/xml keeps in
	// package variables are never used by its token reader and writer
	m["reflect.TypeFor"] = func(w *W, f *frame, a []Val) Val { return Val{} }

	// --- math ---
	m["math.Float64bits"] = func(w *W, f *frame, a []Val) Val {
		if e, ok := a[0].p.(*Expr); ok {
			return Val{n: w.concretize(e)}
		}
		return a[0]
	}
	m["math.Float64frombits"] = func(w *W, f *frame, a []Val) Val {
		if e, ok := a[0].p.(*Expr); ok {
			return Val{n: w.concretize(e)}
		}
		return a[0]
	}
	m["math.Float32bits"] = func(w *W, f *frame, a []Val) Val { return a[0] }
	m["math.Float32frombits"] = func(w *W, f *frame, a []Val) Val { return a[0] }
	conc1 := func(fn func(uint64) uint64) intrin {
		return func(w *W, f *frame, a []Val) Val {
			if e, ok := a[0].p.(*Expr); ok {
				return Val{n: fn(w.concretize(e))}
			}
			return Val{n: fn(a[0].n)}
		}
	}
	m["math/bits.LeadingZeros64"] = conc1(func(x uint64) uint64 { return uint64(bits.LeadingZeros64(x)) })
	m["math/bits.TrailingZeros64"] = conc1(func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	m["math/bits.Len64"] = conc1(func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	m["math/bits.Len"] = conc1(func(x uint64) uint64 { return uint64(bits.Len64(x)) })
	m["math/bits.Len32"] = conc1(func(x uint64) uint64 { return uint64(bits.Len32(uint32(x))) })
	m["math/bits.TrailingZeros32"] = conc1(func(x uint64) uint64 { return uint64(bits.TrailingZeros32(uint32(x))) })
	m["math/bits.TrailingZeros"] = conc1(func(x uint64) uint64 { return uint64(bits.TrailingZeros64(x)) })
	for _, s := range []struct {
		n string
		f func(float64) float64
	}{{"math.Abs", math.Abs}, {"math.Floor", math.Floor}, {"math.Ceil", math.Ceil}, {"math.Trunc", math.Trunc}, {"math.Sqrt", math.Sqrt}} {
		fn := s.f
		m[s.n] = conc1(func(x uint64) uint64 { return math.Float64bits(fn(math.Float64frombits(x))) })
	}

	// --- errors ---
	m["errors.Is"] = func(w *W, f *frame, a []Val) Val { return mkBool(w.errorsIs(a[0], a[1])) }
	m["errors.As"] = func(w *W, f *frame, a []Val) Val { w.unsup("errors.As"); return Val{} }

	// --- fmt ---
	m["fmt.Sprintf"] = func(w *W, f *frame, a []Val) Val { s, _ := w.sprintf(a[0], w.ifaces(a[1])); return s }
	m["fmt.Errorf"] = func(w *W, f *frame, a []Val) Val {
		s, wrapped := w.sprintf(a[0], w.ifaces(a[1]))
		return w.mkError(s, wrapped)
	}
	m["fmt.Sprint"] = func(w *W, f *frame, a []Val) Val {
		r := Val{}
		for _, x := range w.ifaces(a[0]) {
			r = w.concat(r, w.fmtVal('v', "", x))
		}
		return r
	}
	fprintf := func(w *W, dst Val, s Val) Val {
		if dst.p == nil {
			w.rtPanic("nil writer")
		}
		i := dst.p.(*Iface)
		cf := w.methodByName(i.t, "Write")
		o := w.alloc(copyBytes(s, s.m))
		return w.invoke(cf, []Val{i.v, mkSlice(o, 0, s.m, s.m)}, nil, nil)
	}
	m["fmt.Fprintf"] = func(w *W, f *frame, a []Val) Val {
		s, _ := w.sprintf(a[1], w.ifaces(a[2]))
		return fprintf(w, a[0], s)
	}
	m["fmt.Fprint"] = func(w *W, f *frame, a []Val) Val {
		r := Val{}
		for _, x := range w.ifaces(a[1]) {
			r = w.concat(r, w.fmtVal('v', "", x))
		}
		return fprintf(w, a[0], r)
	}
	m["fmt.Appendf"] = func(w *W, f *frame, a []Val) Val {
		s, _ := w.sprintf(a[1], w.ifaces(a[2]))
		return w.appendSlice(types.Typ[types.Uint8], 1, a[0], s, s.m)
	}

	// --- sort ---
	sortSlice := func(stable bool) intrin {
		return func(w *W, f *frame, a []Val) Val {
			i := a[0].p.(*Iface)
			st := uint64(sizeOf(i.t.Underlying().(*types.Slice).Elem()))
			s := i.v
			n := sliceLen(s)
			swap := Val{p: &Closure{native: func(w *W, x []Val) Val {
				p, q := w.intOf(x[0], 64, true), w.intOf(x[1], 64, true)
				o := s.p.(*Obj)
				pv := w.loadAgg(Val{p: o, n: s.n + p*st}, st)
				qv := w.loadAgg(Val{p: o, n: s.n + q*st}, st)
				w.storeAgg(Val{p: o, n: s.n + p*st}, qv, st)
				w.storeAgg(Val{p: o, n: s.n + q*st}, pv, st)
				return Val{}
			}}}
			ls := Val{p: []Val{a[1], swap}}
			sp := w.eng.prog.ImportedPackage("sort")
			if stable {
				w.callFn(sp.Func("stable_func"), []Val{ls, {n: n}})
			} else {
				w.callFn(sp.Func("pdqsort_func"), []Val{ls, {n: 0}, {n: n}, {n: uint64(bits.Len64(n))}})
			}
			return Val{}
		}
	}
	m["sort.Slice"] = sortSlice(false)
	m["sort.SliceStable"] = sortSlice(true)

	// --- sync ---
	lock := func(kind int) intrin {
		return noSpec(func(w *W, f *frame, a []Val) Val {
			w.lockOp(a[0], kind)
			return Val{}
		})
	}
	m["(*sync.Mutex).Lock"] = lock(evLock)
	m["(*sync.Mutex).Unlock"] = lock(evUnlock)
	m["(*sync.RWMutex).Lock"] = lock(evLock)
	m["(*sync.RWMutex).Unlock"] = lock(evUnlock)
	m["(*sync.RWMutex).RLock"] = lock(evRLock)
	m["(*sync.RWMutex).RUnlock"] = lock(evRUnlock)
	m["(*sync.Mutex).TryLock"] = func(w *W, f *frame, a []Val) Val { w.unsup("TryLock"); return Val{} }
	m["(*sync.Once).Do"] = noSpec(func(w *W, f *frame, a []Val) Val {
		o, ok := a[0].p.(*Obj)
		if !ok {
			w.rtPanic("nil Once")
		}
		k := w.side(o, a[0].n)
		w.lockOp(a[0], evLock)
		if k.n == 0 {
			k.n = 1
			k.init = w.inInit
			w.callClosure(a[1], nil)
		}
		w.lockOp(a[0], evUnlock)
		return Val{}
	})
	m["(*sync.Pool).Get"] = noSpec(func(w *W, f *frame, a []Val) Val {
		o, ok := a[0].p.(*Obj)
		if !ok {
			w.rtPanic("nil Pool")
		}
		st := w.eng.poolType
		nf := o.slots[a[0].n+uint64(fieldOff(st, st.NumFields()-1))]
		w.atomicOp(a[0])
		k := w.side(o, a[0].n)
		if k.n > 0 {
			v := k.ents[k.n-1].v
			k.ents = k.ents[:k.n-1]
			k.n--
			return v
		}
		if nf.p == nil {
			return Val{}
		}
		return w.callClosure(nf, nil)
	})
	m["(*sync.Pool).Put"] = noSpec(func(w *W, f *frame, a []Val) Val {
		w.atomicOp(a[0])
		k := w.side(a[0].p.(*Obj), a[0].n)
		k.ents = append(k.ents[:k.n], ment{v: a[1], live: true})
		k.n++
		return Val{}
	})
	anyT := types.Universe.Lookup("any").Type()
	smap := func(fn func(w *W, mm *MapObj, a []Val) Val) intrin {
		return noSpec(func(w *W, f *frame, a []Val) Val {
			return w.quiet(a[0], func() Val { return fn(w, w.side(a[0].p.(*Obj), a[0].n), a) })
		})
	}
	m["(*sync.Map).Load"] = smap(func(w *W, mm *MapObj, a []Val) Val {
		if i := w.mapFind(mm, anyT, a[1]); i >= 0 {
			return tuple(mm.ents[i].v, mkBool(true))
		}
		return tuple(Val{}, mkBool(false))
	})
	m["(*sync.Map).Store"] = smap(func(w *W, mm *MapObj, a []Val) Val { w.mapSet(mm, anyT, a[1], a[2]); return Val{} })
	m["(*sync.Map).Delete"] = smap(func(w *W, mm *MapObj, a []Val) Val { w.mapDelete(mm, anyT, a[1]); return Val{} })
	m["(*sync.Map).LoadOrStore"] = smap(func(w *W, mm *MapObj, a []Val) Val {
		if i := w.mapFind(mm, anyT, a[1]); i >= 0 {
			return tuple(mm.ents[i].v, mkBool(true))
		}
		w.mapSet(mm, anyT, a[1], a[2])
		return tuple(a[2], mkBool(false))
	})

	// --- atomics ---
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		m["sync/atomic.Load"+ty] = noSpec(func(w *W, f *frame, a []Val) Val { return w.quiet(a[0], func() Val { return w.load1(a[0]) }) })
		m["sync/atomic.Store"+ty] = noSpec(func(w *W, f *frame, a []Val) Val {
			w.quiet(a[0], func() Val { w.store(a[0], a[1]); return Val{} })
			return Val{}
		})
		m["sync/atomic.Swap"+ty] = noSpec(func(w *W, f *frame, a []Val) Val {
			return w.quiet(a[0], func() Val { o := w.load1(a[0]); w.store(a[0], a[1]); return o })
		})
		t := ty
		wd := uint8(64)
		if strings.HasSuffix(t, "32") {
			wd = 32
		}
		sg := strings.HasPrefix(t, "Int")
		m["sync/atomic.Add"+ty] = noSpec(func(w *W, f *frame, a []Val) Val {
			return w.quiet(a[0], func() Val {
				o := w.load1(a[0])
				v := fromE(w.ctx.bin(oAdd, w.ctx.toE(o, wd), w.ctx.toE(a[1], wd)), sg)
				w.store(a[0], v)
				return v
			})
		})
		m["sync/atomic.CompareAndSwap"+ty] = noSpec(func(w *W, f *frame, a []Val) Val {
			return w.quiet(a[0], func() Val {
				o := w.load1(a[0])
				if sameVal(o, a[1]) {
					w.store(a[0], a[2])
					return mkBool(true)
				}
				return mkBool(false)
			})
		})
	}
	m["(*sync/atomic.Value).Load"] = noSpec(func(w *W, f *frame, a []Val) Val { return w.quiet(a[0], func() Val { return w.load1(a[0]) }) })
	m["(*sync/atomic.Value).Store"] = noSpec(func(w *W, f *frame, a []Val) Val {
		return w.quiet(a[0], func() Val { w.store(a[0], a[1]); return Val{} })
	})

	// --- harness primitives ---
	h := func(name string, fn intrin) { m[harnessPath+"."+name] = noSpec(fn) }
	h("vByte", func(w *W, f *frame, a []Val) Val {
		e := w.newByteVar(fullSet)
		w.tape = append(w.tape, tapeEnt{e: e})
		return Val{p: e}
	})
	parseSet := func(s string) bset {
		var b bset
		for i := 0; i < len(s); i++ {
			b.add(s[i])
		}
		return b
	}
	h("vByteIn", func(w *W, f *frame, a []Val) Val {
		e := w.newByteVar(parseSet(w.needConcStr(a[0])))
		w.tape = append(w.tape, tapeEnt{e: e})
		return Val{p: e}
	})
	symStr := func(w *W, n uint64, set bset) Val {
		if n == 0 {
			return Val{}
		}
		o := &Obj{isB: true, ro: true, b: make([]byte, n), s: make([]*Expr, n)}
		for i := uint64(0); i < n; i++ {
			e := w.newByteVar(set)
			w.tape = append(w.tape, tapeEnt{e: e})
			o.s[i] = e
		}
		return Val{p: w.alloc(o), m: n}
	}
	h("vStr", func(w *W, f *frame, a []Val) Val { return symStr(w, w.intOf(a[0], 64, true), fullSet) })
	h("vStrIn", func(w *W, f *frame, a []Val) Val {
		return symStr(w, w.intOf(a[0], 64, true), parseSet(w.needConcStr(a[1])))
	})
	h("vChoice", func(w *W, f *frame, a []Val) Val {
		c := w.choose(int(w.intOf(a[0], 64, true)))
		w.tape = append(w.tape, tapeEnt{v: int64(c)})
		return Val{n: uint64(c)}
	})
	h("vBool", func(w *W, f *frame, a []Val) Val {
		e := w.newByteVar(parseSet("\x00\x01"))
		w.tape = append(w.tape, tapeEnt{e: e})
		return fromE(w.ctx.bin(oEq, e, w.ctx.bv(1, 8)), false)
	})
	h("vAssume", func(w *W, f *frame, a []Val) Val {
		if a[0].p == nil {
			if a[0].n == 0 {
				panic(pathKill{"assume"})
			}
			return Val{}
		}
		e := a[0].p.(*Expr)
		if w.tri(e) == 1 {
			return Val{}
		}
		if len(w.dec) < len(w.prefix) {
			w.assume(e)
			return Val{}
		}
		ok, mm := w.feasible(e)
		if !ok {
			panic(pathKill{"assume"})
		}
		w.applyModel(mm)
		w.assume(e)
		return Val{}
	})
	h("vAssert", func(w *W, f *frame, a []Val) Val {
		w.doAssert(a[0], constLabel(a[1]))
		return Val{}
	})
	h("vReach", func(w *W, f *frame, a []Val) Val {
		w.reach[constLabel(a[0])] = true
		return Val{}
	})
	h("vFinding", func(w *W, f *frame, a []Val) Val {
		id := constLabel(a[0])
		if w.eng.known[w.harness.prop+" "+id] == "" {
			panic(violation{msg: "finding " + id})
		}
		w.reach["finding "+id] = true
		panic(pathKill{"known finding"})
	})
	h("vObs", func(w *W, f *frame, a []Val) Val {
		w.obs = append(w.obs, obsEnt{kind: 's', v: a[0]})
		return Val{}
	})
	h("vObsInt", func(w *W, f *frame, a []Val) Val {
		w.obs = append(w.obs, obsEnt{kind: 'i', v: a[0]})
		return Val{}
	})
	h("vMapOrders", func(w *W, f *frame, a []Val) Val {
		w.mapOrders = a[0].n != 0
		return Val{}
	})
	h("vPar", func(w *W, f *frame, a []Val) Val {
		w.parallel(int(w.intOf(a[0], 64, true)), [2]Val{a[1], a[2]})
		return Val{}
	})
	h("vNative", func(w *W, f *frame, a []Val) Val { return mkBool(false) })
	h("vThorough", func(w *W, f *frame, a []Val) Val { return mkBool(w.eng.thorough) })
	h("vSeqDone", func(w *W, f *frame, a []Val) Val { return Val{} })
}

func (w *W) side(o *Obj, n uint64) *MapObj {
	k := sideKey{o, n}
	base := w.eng.sideInit(w)
	if w.inInit {
		if base[k] == nil {
			base[k] = newMap()
			base[k].init = true
		}
		return base[k]
	}
	if w.sideMaps == nil {
		w.sideMaps = map[sideKey]*MapObj{}
	}
	if mm := w.sideMaps[k]; mm != nil {
		return mm
	}
	mm := newMap()
	if b := base[k]; b != nil {
		mm = b.clone()
	}
	mm.init = false
	w.ser++
	mm.ser = w.ser
	w.sideMaps[k] = mm
	return mm
}

// quiet performs an atomic operation on p.
func (w *W) quiet(p Val, fn func() Val) Val {
	w.atomicOp(p)
	w.muted++
	defer func() { w.muted-- }()
	return fn()
}

func (w *W) ifaces(v Val) []Val {
	n := sliceLen(v)
	r := make([]Val, n)
	for i := range r {
		r[i] = v.p.(*Obj).slots[v.n+uint64(i)]
	}
	return r
}

func (w *W) errorsIs(err, target Val) bool {
	errT := types.Universe.Lookup("error").Type()
	for {
		if err.p == nil || target.p == nil {
			return err.p == nil && target.p == nil
		}
		i := err.p.(*Iface)
		if types.Comparable(i.t) {
			if w.truthOf(w.eqVal(errT, err, target)) {
				return true
			}
		}
		if m := w.methodByName(i.t, "Is"); m != nil {
			if w.truthOf(w.invoke(m, []Val{i.v, target}, nil, nil)) {
				return true
			}
		}
		m := w.methodByName(i.t, "Unwrap")
		if m == nil {
			return false
		}
		w.eng.ready(m)
		if m.fn.Signature.Results().Len() == 1 {
			if _, ok := m.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
				l := w.invoke(m, []Val{i.v}, nil, nil)
				for _, x := range w.ifaces(l) {
					if w.errorsIs(x, target) {
						return true
					}
				}
				return false
			}
		}
		err = w.invoke(m, []Val{i.v}, nil, nil)
		if err.p == nil {
			return false
		}
	}
}

// mkError builds the error fmt.Errorf would return.
func (w *W) mkError(msg Val, wrapped []Val) Val {
	fp := w.eng.prog.ImportedPackage("fmt")
	switch len(wrapped) {
	case 0:
		t := fp.Pkg.Scope().Lookup("wrapError")
		_ = t
		ep := w.eng.prog.ImportedPackage("errors")
		es := ep.Pkg.Scope().Lookup("errorString").Type()
		o := w.alloc(&Obj{slots: []Val{msg}})
		return Val{p: &Iface{t: types.NewPointer(es), v: Val{p: o}}}
	case 1:
		wt := w.eng.ptrTo("fmt", "wrapError")
		o := w.alloc(&Obj{slots: []Val{msg, wrapped[0]}})
		return Val{p: &Iface{t: wt, v: Val{p: o}}}
	}
	wt := w.eng.ptrTo("fmt", "wrapErrors")
	so := w.alloc(&Obj{slots: append([]Val(nil), wrapped...)})
	n := uint64(len(wrapped))
	o := w.alloc(&Obj{slots: []Val{msg, mkSlice(so, 0, n, n)}})
	return Val{p: &Iface{t: wt, v: Val{p: o}}}
}

// sprintf formats; symbolic parts of error-message-only verbs are opaque.
func (w *W) sprintf(format Val, args []Val) (Val, []Val) {
	fs := w.needConcStr(format)
	out := Val{}
	var wrapped []Val
	ai := 0
	lit := 0
	for i := 0; i < len(fs); {
		if fs[i] != '%' {
			i++
			continue
		}
		if i > lit {
			out = w.concat(out, newStr(fs[lit:i]))
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			out = w.concat(out, newStr("%!(NOVERB)"))
			lit = len(fs)
			break
		}
		verb := fs[j]
		flags := fs[i+1 : j]
		i = j + 1
		lit = i
		if verb == '%' {
			out = w.concat(out, newStr("%"))
			continue
		}
		if ai >= len(args) {
			out = w.concat(out, newStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		out = w.concat(out, w.fmtVal(verb, flags, a))
	}
	if lit < len(fs) {
		out = w.concat(out, newStr(fs[lit:]))
	}
	return out, wrapped
}

func (w *W) fmtVal(verb byte, flags string, a Val) Val {
	if a.p == nil {
		return newStr("<nil>")
	}
	i := a.p.(*Iface)
	if verb == 'T' {
		return newStr(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			if m := w.methodByName(i.t, mn); m != nil {
				w.eng.ready(m)
				sg := m.fn.Signature
				if sg.Results().Len() == 1 && isStringT(sg.Results().At(0).Type()) && sg.Params().Len() == 0 {
					s := w.invoke(m, []Val{i.v}, nil, nil)
					return w.fmtStr(verb, flags, s)
				}
			}
		}
	}
	switch u := i.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.fmtStr(verb, flags, i.v)
		case u.Info()&types.IsBoolean != 0:
			return newStr(strconv.FormatBool(w.truthOf(i.v)))
		case u.Info()&types.IsInteger != 0:
			wd, sg, _ := intInfo(i.t)
			if i.v.p != nil {
				if verb == 'c' || verb == 'q' || verb == 'x' || verb == 'U' {
					return newStr("?") // opaque: appears only in messages
				}
				e := i.v.p.(*Expr)
				if flags == "" && (verb == 'd' || verb == 'v') {
					sp := w.eng.prog.ImportedPackage("strconv")
					if sg {
						return w.callFn(sp.Func("FormatInt"), []Val{fromE(w.ctx.ext(oSExt, e, 64), true), {n: 10}})
					}
					return w.callFn(sp.Func("FormatUint"), []Val{fromE(w.ctx.ext(oZExt, e, 64), false), {n: 10}})
				}
				i.v = Val{n: w.intOf(i.v, wd, sg)}
			}
			if sg {
				return newStr(fmt.Sprintf("%"+flags+string(verb), int64(i.v.n)))
			}
			return newStr(fmt.Sprintf("%"+flags+string(verb), i.v.n))
		case u.Info()&types.IsFloat != 0:
			v := i.v
			if e, ok := v.p.(*Expr); ok {
				v = Val{n: w.concretize(e)}
			}
			if u.Kind() == types.Float32 {
				return newStr(fmt.Sprintf("%"+flags+string(verb), math.Float32frombits(uint32(v.n))))
			}
			return newStr(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(v.n)))
		}
	case *types.Slice:
		if isByteType(u.Elem()) && (verb == 's' || verb == 'q') {
			return w.fmtStr(verb, flags, Val{p: i.v.p, n: i.v.n, m: sliceLen(i.v)})
		}
	}
	w.unsup("fmt verb %%%c on %s", verb, i.t)
	return Val{}
}

func (w *W) fmtStr(verb byte, flags string, s Val) Val {
	if c, ok := strConc(s, s.m); ok {
		return newStr(fmt.Sprintf("%"+flags+string(verb), c))
	}
	if verb == 'q' {
		return w.concat(w.concat(newStr("\""), s), newStr("\""))
	}
	if flags != "" {
		w.unsup("fmt flags %q on symbolic string", flags)
	}
	return s
}
