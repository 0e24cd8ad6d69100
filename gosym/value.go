package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is a machine value. The static type decides its interpretation:
//
//	bool, ints      n canonical value (sign/zero extended) or p=*Expr
//	float64         n=bits or p=*Expr (FP sort)
//	string          p=*Obj (byte mode), n=offset, m=length
//	slice           p=*Obj, n=slot offset, m=len<<32|cap
//	pointer         p=*Obj, n=slot, or p=*symPtr
//	interface       p=*Iface
//	map/func        p=*MapObj / *Closure
//	struct, array   p=[]Val, flattened
//	tuple           p=[]Val, one per component
type Val struct {
	p    any
	n, m uint64
}

// Obj is a memory object: either slots or bytes with optional symbolic overlay.
type Obj struct {
	slots []Val
	b     []byte
	s     []*Expr
	isB   bool
	ro    bool // string data: writes are violations
	init  bool // created during initialisation, writes are journaled
	ser   uint64
	gid   int32 // global number + 1
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn     *ssa.Function
	cf     *cfn
	native func(w *W, args []Val) Val
	binds  []Val
}

// symPtr is a pointer with a symbolic element index into an object.
type symPtr struct {
	o      *Obj
	base   uint64
	stride uint64
	add    uint64
	idx    *Expr // index expression, proven within [0,n)
	n      uint64
}

// uPtr remembers the pointee type across unsafe.Pointer conversions.
type uPtr struct {
	v Val
	t types.Type
}

type ment struct {
	k, v Val
	ks   string
	sym  bool
	live bool
}

type MapObj struct {
	ents []ment
	idx  map[string]int
	nsym int
	n    int
	init bool
	ser  uint64
	snap bool // snapshot taken in this path
}

func newMap() *MapObj { return &MapObj{idx: map[string]int{}} }

func (m *MapObj) clone() *MapObj {
	c := &MapObj{ents: append([]ment(nil), m.ents...), idx: make(map[string]int, len(m.idx)), nsym: m.nsym, n: m.n, init: m.init, ser: m.ser}
	for k, v := range m.idx {
		c.idx[k] = v
	}
	return c
}

type mapIter struct {
	m     *MapObj
	order []int
	pos   int
}

type strIter struct {
	s   Val
	pos uint64
}

func sliceLen(v Val) uint64                { return v.m >> 32 }
func sliceCap(v Val) uint64                { return v.m & 0xffffffff }
func mkSlice(o *Obj, off, l, c uint64) Val { return Val{p: o, n: off, m: l<<32 | c} }

func mkBool(b bool) Val {
	if b {
		return Val{n: 1}
	}
	return Val{}
}

func bytesObj(b []byte) *Obj { return &Obj{b: b, isB: true} }

var strIntern sync.Map

func constStr(s string) Val {
	if s == "" {
		return Val{}
	}
	o, ok := strIntern.Load(s)
	if !ok {
		o, _ = strIntern.LoadOrStore(s, &Obj{b: []byte(s), isB: true, ro: true, init: true})
	}
	return Val{p: o.(*Obj), m: uint64(len(s))}
}

func newStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: &Obj{b: []byte(s), isB: true, ro: true}, m: uint64(len(s))}
}

// byteAt returns byte i of a string or byte slice value.
func byteAt(v Val, i uint64) Val {
	o := v.p.(*Obj)
	j := v.n + i
	if !o.isB {
		return o.slots[j]
	}
	if o.s != nil {
		if e := o.s[j]; e != nil {
			return Val{p: e}
		}
	}
	return Val{n: uint64(o.b[j])}
}

// strConc returns the concrete contents of a byte range and whether it is concrete.
func strConc(v Val, l uint64) (string, bool) {
	if l == 0 {
		return "", true
	}
	o := v.p.(*Obj)
	if !o.isB {
		bs := make([]byte, l)
		for i := uint64(0); i < l; i++ {
			x := o.slots[v.n+i]
			if x.p != nil {
				return "", false
			}
			bs[i] = byte(x.n)
		}
		return string(bs), true
	}
	if o.s != nil {
		for _, e := range o.s[v.n : v.n+l] {
			if e != nil {
				return "", false
			}
		}
	}
	return string(o.b[v.n : v.n+l]), true
}

// copyBytes copies l bytes of v into a fresh object.
func copyBytes(v Val, l uint64) *Obj {
	o := &Obj{isB: true, b: make([]byte, l)}
	if l > 0 {
		putBytes(o, 0, v, l)
	}
	return o
}

// putBytes copies l bytes of v to dst at off (dst is byte mode).
func putBytes(dst *Obj, off uint64, v Val, l uint64) {
	if l == 0 {
		return
	}
	src := v.p.(*Obj)
	if !src.isB {
		for i := uint64(0); i < l; i++ {
			dst.setByte(off+i, src.slots[v.n+i])
		}
		return
	}
	if src.s == nil {
		copy(dst.b[off:off+l], src.b[v.n:v.n+l])
		if dst.s != nil {
			clear(dst.s[off : off+l])
		}
		return
	}
	if dst.s == nil {
		dst.s = make([]*Expr, len(dst.b))
	}
	copy(dst.b[off:off+l], src.b[v.n:v.n+l])
	copy(dst.s[off:off+l], src.s[v.n:v.n+l])
}

func (o *Obj) setByte(i uint64, v Val) {
	if e, ok := v.p.(*Expr); ok {
		if o.s == nil {
			o.s = make([]*Expr, len(o.b))
		}
		o.s[i] = e
		return
	}
	o.b[i] = byte(v.n)
	if o.s != nil {
		o.s[i] = nil
	}
}

var sizeCache sync.Map

func sizeOf(t types.Type) int {
	if v, ok := sizeCache.Load(t); ok {
		return v.(int)
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += sizeOf(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * sizeOf(u.Elem())
	}
	sizeCache.Store(t, n)
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func fieldOff(st *types.Struct, i int) int {
	n := 0
	for j := 0; j < i; j++ {
		n += sizeOf(st.Field(j).Type())
	}
	return n
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func zeroVal(t types.Type) Val {
	if isAgg(t) {
		return Val{p: make([]Val, sizeOf(t))}
	}
	return Val{}
}

// newObj allocates an object able to hold a value of type t.
func newObj(t types.Type) *Obj {
	if a, ok := t.Underlying().(*types.Array); ok && isByteType(a.Elem()) {
		return &Obj{isB: true, b: make([]byte, a.Len())}
	}
	return &Obj{slots: make([]Val, sizeOf(t))}
}

// intInfo returns width and signedness of an integer type (ok=false for others).
func intInfo(t types.Type) (w uint8, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) (bits int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64
	case types.Float32:
		return 32
	}
	return 0
}
func isIfaceT(t types.Type) bool { return types.IsInterface(t) }

func canon(v uint64, w uint8, signed bool) uint64 {
	if w == 64 {
		return v
	}
	if signed {
		return uint64(sext(v, w))
	}
	return v & mask(w)
}

func (c *Ctx) toE(v Val, w uint8) *Expr {
	if e, ok := v.p.(*Expr); ok {
		return e
	}
	if w == 0 {
		return c.boolE(v.n != 0)
	}
	if w == wFP {
		return c.mk(oFConst, wFP, v.n, nil, nil, nil)
	}
	return c.bv(v.n, w)
}

func fromE(e *Expr, signed bool) Val {
	if e.op == oConst {
		if e.w == 0 {
			return Val{n: e.k}
		}
		return Val{n: canon(e.k, e.w, signed)}
	}
	if e.op == oFConst {
		return Val{n: e.k}
	}
	return Val{p: e}
}

// encodeKey produces a hashable form of a concrete value; sym reports symbolic parts.
func (w *W) encodeKey(t types.Type, v Val) (s string, sym bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			c, ok := strConc(v, v.m)
			return c, !ok
		}
		if v.p != nil {
			if _, ok := v.p.(*Expr); ok {
				return "", true
			}
		}
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v.n)
		return string(b[:]), false
	case *types.Interface:
		if v.p == nil {
			return "nil", false
		}
		i := v.p.(*Iface)
		k, sym := w.encodeKey(i.t, i.v)
		return types.TypeString(i.t, nil) + "\x00" + k, sym
	case *types.Struct:
		var sb strings.Builder
		off := 0
		vs := v.p.([]Val)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k, sym := w.encodeKey(ft, subVal(vs, off, ft))
			if sym {
				return "", true
			}
			off += sizeOf(ft)
			fmt.Fprintf(&sb, "%d:%s", len(k), k)
		}
		return sb.String(), false
	case *types.Array:
		var sb strings.Builder
		vs := v.p.([]Val)
		sz := sizeOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			k, sym := w.encodeKey(u.Elem(), subVal(vs, i*sz, u.Elem()))
			if sym {
				return "", true
			}
			fmt.Fprintf(&sb, "%d:%s", len(k), k)
		}
		return sb.String(), false
	}
	// pointers and the like: identity
	return fmt.Sprintf("%p+%d", v.p, v.n), false
}

func subVal(vs []Val, off int, t types.Type) Val {
	if isAgg(t) {
		return Val{p: vs[off : off+sizeOf(t) : off+sizeOf(t)]}
	}
	return vs[off]
}

func (w *W) mapFind(m *MapObj, kt types.Type, key Val) int {
	if m == nil {
		return -1
	}
	ks, sym := w.encodeKey(kt, key)
	if !sym {
		if i, ok := m.idx[ks]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
		for i := range m.ents {
			if e := &m.ents[i]; e.live && e.sym {
				if w.truthOf(w.eqVal(kt, key, e.k)) {
					return i
				}
			}
		}
		return -1
	}
	for i := range m.ents {
		if e := &m.ents[i]; e.live {
			if w.truthOf(w.eqVal(kt, key, e.k)) {
				return i
			}
		}
	}
	return -1
}

func (w *W) mapTouch(m *MapObj) {
	if w.spec > 0 && m.ser <= w.specSer {
		panic(specAbort{})
	}
	if m.init && !w.inInit && !m.snap {
		m.snap = true
		w.mapJournal = append(w.mapJournal, mapUndo{m, m.clone()})
	}
}

func (w *W) mapSet(m *MapObj, kt types.Type, key, v Val) {
	w.access(m, 0, true)
	i := w.mapFind(m, kt, key)
	w.mapTouch(m)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	ks, sym := w.encodeKey(kt, key)
	m.ents = append(m.ents, ment{k: key, v: v, ks: ks, sym: sym, live: true})
	m.n++
	if sym {
		m.nsym++
	} else {
		m.idx[ks] = len(m.ents) - 1
	}
}

func (w *W) mapDelete(m *MapObj, kt types.Type, key Val) {
	if m == nil {
		return
	}
	w.access(m, 0, true)
	i := w.mapFind(m, kt, key)
	if i < 0 {
		return
	}
	w.mapTouch(m)
	e := &m.ents[i]
	e.live = false
	m.n--
	if e.sym {
		m.nsym--
	} else {
		delete(m.idx, e.ks)
	}
}

func (w *W) mapClear(m *MapObj) {
	if m == nil {
		return
	}
	w.access(m, 0, true)
	w.mapTouch(m)
	m.ents = nil
	m.idx = map[string]int{}
	m.n, m.nsym = 0, 0
}

// eqVal compares two values of static type t.
func (w *W) eqVal(t types.Type, a, b Val) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return w.eqBytes(a, a.m, b, b.m)
		case u.Info()&types.IsBoolean != 0:
			if a.p == nil && b.p == nil {
				return mkBool(a.n == b.n)
			}
			return fromE(w.ctx.bin(oEq, w.ctx.toE(a, 0), w.ctx.toE(b, 0)), false)
		case u.Info()&types.IsFloat != 0:
			if a.p == nil && b.p == nil {
				return mkBool(f64(a, u) == f64(b, u))
			}
			return fromE(w.ctx.bin(oFEq, w.ctx.toE(a, wFP), w.ctx.toE(b, wFP)), false)
		case u.Info()&types.IsInteger != 0:
			if a.p == nil && b.p == nil {
				return mkBool(a.n == b.n)
			}
			wd, _, _ := intInfo(t)
			return fromE(w.ctx.bin(oEq, w.ctx.toE(a, wd), w.ctx.toE(b, wd)), false)
		}
		return mkBool(a.p == b.p && a.n == b.n)
	case *types.Interface:
		if a.p == nil || b.p == nil {
			return mkBool(a.p == nil && b.p == nil)
		}
		x, y := a.p.(*Iface), b.p.(*Iface)
		if x == y {
			return mkBool(true)
		}
		if !types.Identical(x.t, y.t) {
			return mkBool(false)
		}
		if !types.Comparable(x.t) {
			w.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return w.eqVal(x.t, x.v, y.v)
	case *types.Struct:
		r := w.ctx.T
		off := 0
		va, vb := a.p.([]Val), b.p.([]Val)
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			c := w.eqVal(ft, subVal(va, off, ft), subVal(vb, off, ft))
			off += sizeOf(ft)
			if c.p == nil && c.n == 0 {
				return mkBool(false)
			}
			r = w.ctx.and(r, w.ctx.toE(c, 0))
		}
		return fromE(r, false)
	case *types.Array:
		r := w.ctx.T
		va, vb := a.p.([]Val), b.p.([]Val)
		sz := sizeOf(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			c := w.eqVal(u.Elem(), subVal(va, i*sz, u.Elem()), subVal(vb, i*sz, u.Elem()))
			if c.p == nil && c.n == 0 {
				return mkBool(false)
			}
			r = w.ctx.and(r, w.ctx.toE(c, 0))
		}
		return fromE(r, false)
	case *types.Pointer, *types.Chan:
		return mkBool(a.p == b.p && (a.p == nil || a.n == b.n))
	}
	// func, map, slice: only comparable with nil
	return mkBool(a.p == nil && b.p == nil)
}

func (w *W) eqBytes(a Val, la uint64, b Val, lb uint64) Val {
	if la != lb {
		return mkBool(false)
	}
	if la == 0 {
		return mkBool(true)
	}
	oa, ob := a.p.(*Obj), b.p.(*Obj)
	if oa == ob && a.n == b.n {
		return mkBool(true)
	}
	if oa.isB && ob.isB && oa.s == nil && ob.s == nil {
		return mkBool(string(oa.b[a.n:a.n+la]) == string(ob.b[b.n:b.n+la]))
	}
	r := w.ctx.T
	for i := uint64(0); i < la; i++ {
		x, y := byteAt(a, i), byteAt(b, i)
		if x.p == nil && y.p == nil {
			if x.n != y.n {
				return mkBool(false)
			}
			continue
		}
		r = w.ctx.and(r, w.ctx.bin(oEq, w.ctx.toE(x, 8), w.ctx.toE(y, 8)))
		if r == w.ctx.F {
			break
		}
	}
	return fromE(r, false)
}
