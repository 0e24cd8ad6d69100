package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

// Symbolic expressions. Bool has width 0, bit-vectors 8..64, float64 uses wFP.
const wFP = 200

type op uint8

const (
	oConst op = iota
	oVar
	oNot
	oAnd
	oOr
	oIte
	oEq
	oUlt
	oSlt
	oAdd
	oSub
	oMul
	oUDiv
	oSDiv
	oURem
	oSRem
	oBAnd
	oBOr
	oBXor
	oShl
	oLShr
	oAShr
	oZExt
	oSExt
	oTrunc
	oTbl // table lookup: k = table id, a = index (bv8)
	oFFromS
	oFFromU
	oFAdd
	oFSub
	oFMul
	oFDiv
	oFNeg
	oFLt
	oFLe
	oFEq
	oFToS
	oFConst
)

var opNames = map[op]string{oConst: "const", oVar: "var", oNot: "not", oAnd: "and", oOr: "or", oIte: "ite", oEq: "=", oUlt: "bvult", oSlt: "bvslt",
	oAdd: "bvadd", oSub: "bvsub", oMul: "bvmul", oUDiv: "bvudiv", oSDiv: "bvsdiv", oURem: "bvurem", oSRem: "bvsrem", oBAnd: "bvand", oBOr: "bvor", oBXor: "bvxor",
	oShl: "bvshl", oLShr: "bvlshr", oAShr: "bvashr"}

type bset [4]uint64

func (s *bset) has(v byte) bool { return s[v>>6]>>(v&63)&1 != 0 }
func (s *bset) add(v byte)      { s[v>>6] |= 1 << (v & 63) }
func (s bset) and(t bset) bset {
	return bset{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s bset) andNot(t bset) bset {
	return bset{s[0] &^ t[0], s[1] &^ t[1], s[2] &^ t[2], s[3] &^ t[3]}
}
func (s bset) empty() bool { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s bset) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s bset) first() byte {
	for i, x := range s {
		if x != 0 {
			return byte(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

var fullSet = bset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Expr struct {
	op      op
	w       uint8
	id      uint32
	k       uint64
	a, b, c *Expr
	vars    []int32 // sorted variable ids
	tt      *bset   // truth set when Bool over a single 8-bit variable
	neg     *Expr   // memoised negation
	defined uint32  // solver generation in which a definition was emitted
	size    int32
}

type ekey struct {
	op      op
	w       uint8
	k       uint64
	a, b, c uint32
}

// Ctx holds hash-consed expressions of one worker.
type Ctx struct {
	tab    map[ekey]*Expr
	next   uint32
	tables []([]uint64)
	tabIdx map[string]uint64
	tabW   []uint8
	varW   []uint8
	varE   []*Expr
	T, F   *Expr
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, tabIdx: map[string]uint64{}}
	c.T = c.mk(oConst, 0, 1, nil, nil, nil)
	c.F = c.mk(oConst, 0, 0, nil, nil, nil)
	c.T.neg, c.F.neg = c.F, c.T
	return c
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	if len(x) == len(y) {
		same := true
		for i := range x {
			if x[i] != y[i] {
				same = false
				break
			}
		}
		if same {
			return x
		}
	}
	r := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || (i < len(x) && x[i] < y[j]):
			r = append(r, x[i])
			i++
		case i >= len(x) || y[j] < x[i]:
			r = append(r, y[j])
			j++
		default:
			r = append(r, x[i])
			i++
			j++
		}
	}
	return r
}

func (c *Ctx) mk(o op, w uint8, k uint64, a, b, d *Expr) *Expr {
	key := ekey{o, w, k, eid(a), eid(b), eid(d)}
	if e, ok := c.tab[key]; ok {
		return e
	}
	c.next++
	e := &Expr{op: o, w: w, k: k, a: a, b: b, c: d, id: c.next, size: 1}
	if o == oVar {
		e.vars = []int32{int32(k)}
	}
	for _, x := range [3]*Expr{a, b, d} {
		if x != nil {
			e.vars = mergeVars(e.vars, x.vars)
			e.size += x.size
			if e.size > 1<<28 {
				e.size = 1 << 28
			}
		}
	}
	c.tab[key] = e
	return e
}

func (c *Ctx) newVar(id int, w uint8) *Expr {
	for len(c.varE) <= id {
		c.varE = append(c.varE, nil)
		c.varW = append(c.varW, 0)
	}
	if e := c.varE[id]; e != nil && e.w == w {
		return e
	}
	if c.varE[id] != nil {
		panic("variable redeclared with another width")
	}
	e := c.mk(oVar, w, uint64(id), nil, nil, nil)
	c.varE[id] = e
	c.varW[id] = w
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) bv(v uint64, w uint8) *Expr { return c.mk(oConst, w, v&mask(w), nil, nil, nil) }
func (c *Ctx) fp(v float64) *Expr         { return c.mk(oFConst, wFP, math.Float64bits(v), nil, nil, nil) }
func (c *Ctx) boolE(b bool) *Expr {
	if b {
		return c.T
	}
	return c.F
}

func (e *Expr) isConst() bool { return e.op == oConst || e.op == oFConst }

func (c *Ctx) not(a *Expr) *Expr {
	if a.neg != nil {
		return a.neg
	}
	var r *Expr
	if a.op == oNot {
		r = a.a
	} else {
		r = c.mk(oNot, 0, 0, a, nil, nil)
	}
	a.neg = r
	r.neg = a
	return r
}

func (c *Ctx) and(a, b *Expr) *Expr {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T || a == b {
		return b
	}
	if b == c.T {
		return a
	}
	if a.neg == b && b != nil && a.neg != nil {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.setSimplify(c.mk(oAnd, 0, 0, a, b, nil))
}

func (c *Ctx) or(a, b *Expr) *Expr {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F || a == b {
		return b
	}
	if b == c.F {
		return a
	}
	if a.neg == b && a.neg != nil {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.setSimplify(c.mk(oOr, 0, 0, a, b, nil))
}

// setSimplify turns single-variable boolean expressions whose truth set is
// empty or full into constants.
func (c *Ctx) setSimplify(e *Expr) *Expr {
	if len(e.vars) == 1 && c.varW[e.vars[0]] == 8 {
		s := c.truth(e)
		if s.empty() {
			return c.F
		}
		if *s == fullSet {
			return c.T
		}
	}
	return e
}

// truth returns the set of values of the single 8-bit variable of e for which e is true.
func (c *Ctx) truth(e *Expr) *bset {
	if e.tt != nil {
		return e.tt
	}
	var s bset
	switch e.op {
	case oNot:
		s = fullSet.andNot(*c.truth(e.a))
	case oAnd, oOr:
		get := func(x *Expr) bset {
			if len(x.vars) == 0 {
				if x == c.T {
					return fullSet
				}
				return bset{}
			}
			return *c.truth(x)
		}
		l, r := get(e.a), get(e.b)
		if e.op == oAnd {
			s = l.and(r)
		} else {
			s = bset{l[0] | r[0], l[1] | r[1], l[2] | r[2], l[3] | r[3]}
		}
	default:
		var m [1]uint64
		for v := 0; v < 256; v++ {
			m[0] = uint64(v)
			if c.evalOne(e, uint64(v)) != 0 {
				s.add(byte(v))
			}
		}
	}
	e.tt = &s
	return e.tt
}

func (c *Ctx) evalOne(e *Expr, v uint64) uint64 {
	return c.eval(e, func(int32) uint64 { return v }, nil)
}

// eval evaluates e under an assignment of variables.
func (c *Ctx) eval(e *Expr, get func(int32) uint64, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case oConst, oFConst:
		return e.k
	case oVar:
		return get(int32(e.k)) & mask(e.w)
	}
	if memo != nil {
		if v, ok := memo[e]; ok {
			return v
		}
	}
	var r uint64
	switch e.op {
	case oNot:
		r = 1 - c.eval(e.a, get, memo)
	case oAnd:
		r = c.eval(e.a, get, memo)
		if r != 0 {
			r = c.eval(e.b, get, memo)
		}
	case oOr:
		r = c.eval(e.a, get, memo)
		if r == 0 {
			r = c.eval(e.b, get, memo)
		}
	case oIte:
		if c.eval(e.a, get, memo) != 0 {
			r = c.eval(e.b, get, memo)
		} else {
			r = c.eval(e.c, get, memo)
		}
	case oTbl:
		t := c.tables[e.k]
		i := c.eval(e.a, get, memo)
		if i < uint64(len(t)) {
			r = t[i]
		}
	default:
		x := c.eval(e.a, get, memo)
		var y uint64
		if e.b != nil {
			y = c.eval(e.b, get, memo)
		}
		aw := e.a.w
		r = foldOp(e.op, e.w, aw, x, y)
	}
	if memo != nil {
		memo[e] = r
	}
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// foldOp computes an operator on constants; w is the result width and aw the operand width.
func foldOp(o op, w, aw uint8, x, y uint64) uint64 {
	switch o {
	case oEq:
		return b2u(x == y)
	case oUlt:
		return b2u(x < y)
	case oSlt:
		return b2u(sext(x, aw) < sext(y, aw))
	case oAdd:
		return (x + y) & mask(w)
	case oSub:
		return (x - y) & mask(w)
	case oMul:
		return (x * y) & mask(w)
	case oUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case oURem:
		if y == 0 {
			return x
		}
		return x % y
	case oSDiv:
		if y == 0 {
			return mask(w)
		}
		return uint64(sext(x, aw)/sext(y, aw)) & mask(w)
	case oSRem:
		if y == 0 {
			return x
		}
		return uint64(sext(x, aw)%sext(y, aw)) & mask(w)
	case oBAnd:
		return x & y
	case oBOr:
		return x | y
	case oBXor:
		return x ^ y
	case oShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case oLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case oAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & mask(w)
	case oZExt:
		return x
	case oSExt:
		return uint64(sext(x, aw)) & mask(w)
	case oTrunc:
		return x & mask(w)
	case oFFromS:
		return math.Float64bits(float64(sext(x, aw)))
	case oFFromU:
		return math.Float64bits(float64(x))
	}
	fx, fy := math.Float64frombits(x), math.Float64frombits(y)
	switch o {
	case oFAdd:
		return math.Float64bits(fx + fy)
	case oFSub:
		return math.Float64bits(fx - fy)
	case oFMul:
		return math.Float64bits(fx * fy)
	case oFDiv:
		return math.Float64bits(fx / fy)
	case oFNeg:
		return math.Float64bits(-fx)
	case oFLt:
		return b2u(fx < fy)
	case oFLe:
		return b2u(fx <= fy)
	case oFEq:
		return b2u(fx == fy)
	case oFToS:
		return uint64(int64(fx)) & mask(w)
	}
	panic(fmt.Sprintf("foldOp %d", o))
}

func (c *Ctx) ite(g, a, b *Expr) *Expr {
	if g == c.T || a == b {
		return a
	}
	if g == c.F {
		return b
	}
	if a.w == 0 {
		if a == c.T {
			return c.or(g, b)
		}
		if a == c.F {
			return c.and(c.not(g), b)
		}
		if b == c.T {
			return c.or(c.not(g), a)
		}
		if b == c.F {
			return c.and(g, a)
		}
		return c.setSimplify(c.mk(oIte, 0, 0, g, a, b))
	}
	return c.mk(oIte, a.w, 0, g, a, b)
}

func (c *Ctx) bin(o op, a, b *Expr) *Expr {
	w := a.w
	switch o {
	case oEq, oUlt, oSlt, oFLt, oFLe, oFEq:
		w = 0
	}
	if a.isConst() && b.isConst() {
		r := foldOp(o, w, a.w, a.k, b.k)
		if w == wFP {
			return c.mk(oFConst, wFP, r, nil, nil, nil)
		}
		return c.mk(oConst, w, r, nil, nil, nil)
	}
	switch o {
	case oEq:
		if a == b && a.w != wFP {
			return c.T
		}
		if a.w == 0 {
			if a == c.T {
				return b
			}
			if b == c.T {
				return a
			}
			if a == c.F {
				return c.not(b)
			}
			if b == c.F {
				return c.not(a)
			}
			if a.neg == b && b != nil {
				return c.F
			}
		}
		if a.isConst() {
			a, b = b, a
		}
		// zext(x) == const
		if b.op == oConst && a.op == oZExt {
			if b.k > mask(a.a.w) {
				return c.F
			}
			return c.bin(oEq, a.a, c.bv(b.k, a.a.w))
		}
		if b.op == oConst && a.op == oIte && a.b.isConst() && a.c.isConst() {
			l, r := c.bin(oEq, a.b, b), c.bin(oEq, a.c, b)
			return c.ite(a.a, l, r)
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
		return c.setSimplify(c.mk(oEq, 0, 0, a, b, nil))
	case oUlt, oSlt:
		if a == b {
			return c.F
		}
		// comparisons of zero-extended values with constants
		if a.op == oZExt && b.op == oConst {
			n := mask(a.a.w)
			if o == oSlt && sext(b.k, b.w) <= 0 {
				return c.F
			}
			if b.k > n {
				return c.T
			}
			return c.bin(oUlt, a.a, c.bv(b.k, a.a.w))
		}
		if b.op == oZExt && a.op == oConst {
			n := mask(b.a.w)
			if o == oSlt && sext(a.k, a.w) < 0 {
				return c.T
			}
			if a.k >= n {
				return c.F
			}
			return c.bin(oUlt, c.bv(a.k, b.a.w), b.a)
		}
		return c.setSimplify(c.mk(o, 0, 0, a, b, nil))
	case oAdd, oBOr, oBXor, oSub, oShl, oLShr, oAShr:
		if b.op == oConst && b.k == 0 {
			return a
		}
		if a.op == oConst && a.k == 0 && (o == oAdd || o == oBOr || o == oBXor) {
			return b
		}
	case oMul:
		if b.op == oConst && b.k == 1 {
			return a
		}
		if a.op == oConst && a.k == 1 {
			return b
		}
		if b.op == oConst && b.k == 0 {
			return b
		}
		if a.op == oConst && a.k == 0 {
			return a
		}
	case oBAnd:
		if b.op == oConst && b.k == 0 {
			return b
		}
		if b.op == oConst && b.k == mask(w) {
			return a
		}
	}
	if w == 0 {
		return c.setSimplify(c.mk(o, w, 0, a, b, nil))
	}
	return c.mk(o, w, 0, a, b, nil)
}

func (c *Ctx) ext(o op, a *Expr, w uint8) *Expr {
	if a.w == w && o != oFFromS && o != oFFromU {
		return a
	}
	if a.isConst() {
		r := foldOp(o, w, a.w, a.k, 0)
		if w == wFP {
			return c.mk(oFConst, wFP, r, nil, nil, nil)
		}
		return c.mk(oConst, w, r, nil, nil, nil)
	}
	if o == oTrunc && (a.op == oZExt || a.op == oSExt) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w < w {
			return c.ext(a.op, a.a, w)
		}
		return c.ext(oTrunc, a.a, w)
	}
	if o == oZExt && a.op == oZExt {
		return c.ext(oZExt, a.a, w)
	}
	if o == oSExt && a.op == oZExt {
		return c.ext(oZExt, a.a, w)
	}
	return c.mk(o, w, 0, a, nil, nil)
}

// tbl builds a lookup of idx (8-bit) in a constant table.
func (c *Ctx) tbl(vals []uint64, w uint8, idx *Expr) *Expr {
	key := make([]byte, 0, len(vals)*8+1)
	key = append(key, w)
	same := true
	for _, v := range vals {
		if v != vals[0] {
			same = false
		}
		for s := 0; s < 64; s += 8 {
			key = append(key, byte(v>>s))
		}
	}
	if same {
		return c.mk(oConst, w, vals[0], nil, nil, nil)
	}
	id, ok := c.tabIdx[string(key)]
	if !ok {
		id = uint64(len(c.tables))
		c.tables = append(c.tables, append([]uint64(nil), vals...))
		c.tabW = append(c.tabW, w)
		c.tabIdx[string(key)] = id
	}
	e := c.mk(oTbl, w, id, idx, nil, nil)
	if w == 0 {
		return c.setSimplify(e)
	}
	return e
}

// conjuncts splits nested conjunctions.
func conjuncts(e *Expr, out []*Expr) []*Expr {
	if e.op == oAnd {
		return conjuncts(e.b, conjuncts(e.a, out))
	}
	if e.op == oNot && e.a.op == oOr && e.a.a.neg != nil && e.a.b.neg != nil {
		return conjuncts(e.a.b.neg, conjuncts(e.a.a.neg, out))
	}
	return append(out, e)
}

func sortVars(v []int32) { sort.Slice(v, func(i, j int) bool { return v[i] < v[j] }) }
