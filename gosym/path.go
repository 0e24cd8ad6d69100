package main

import (
	"fmt"
	"go/types"
	"time"
)

// control-flow signals raised inside the interpreter
type specAbort struct{}            // speculation cannot continue
type pathKill struct{ why string } // path infeasible or assumption false
type pathLimit struct{ why string }
type unsupported struct{ what string }
type targetPanic struct {
	v   Val // interface value
	msg string
}
type violation struct{ msg string }

type task struct {
	prefix []int64
	model  []uint64
}

type tapeEnt struct {
	e *Expr
	v int64
}

type undo struct {
	o *Obj
	i uint64
	v Val
}
type mapUndo struct {
	m, old *MapObj
}

// W is one symbolic execution worker.
type W struct {
	eng    *Engine
	ctx    *Ctx
	solver *Solver

	globals []*Obj
	inInit  bool
	ser     uint64

	// path state
	prefix     []int64
	dec        []int64
	model      []uint64
	dom        []bset
	inMulti    []bool
	multi      []*Expr
	nvars      int
	tape       []tapeEnt
	obs        []obsEnt
	steps      int64
	maxStep    int64
	depth      int
	spec       int
	specSer    uint64
	specEnd    int64
	journal    []undo
	mapJournal []mapUndo
	mapOrders  bool
	reach      map[string]bool
	pcN        int
	known      map[*Expr]bool // conditions on several variables decided on this path

	stack [][]Val
	sp    int
	chunk int

	methodCache map[mkey]*cfn
	sideMaps    map[sideKey]*MapObj
	par         *parState
	muted       int
	cur         *cfn // function that runs
	locks       map[sideKey]*lockState
	coStacks    [2][][]Val
	stPairs     int64

	spawn func(task)

	// statistics of this worker
	stBranchDom, stBranchSolver, stBranchModel         int64
	stMerges, stAsserts, stAssertConst, stAssertSolver int64
	stSteps, stUnknown                                 int64
	harness                                            *harness
	onViolation                                        func(w *W, msg string, model []uint64)
	deadline                                           time.Time
}

type obsEnt struct {
	kind byte
	v    Val
	t    types.Type
}

type mkey struct {
	t    types.Type
	name string
}
type sideKey struct {
	o *Obj
	n uint64
}

func (w *W) resetPath(t task) {
	w.prefix = t.prefix
	w.dec = make([]int64, 0, len(t.prefix)+32)
	w.model = append(w.model[:0], t.model...)
	w.dom = w.dom[:0]
	w.inMulti = w.inMulti[:0]
	w.multi = w.multi[:0]
	w.known = map[*Expr]bool{}
	w.nvars = 0
	w.tape = w.tape[:0]
	w.obs = w.obs[:0]
	w.steps = 0
	w.depth = 0
	w.spec = 0
	w.mapOrders = false
	w.chunk, w.sp = 0, 0
	w.par = nil
	w.muted = 0
	w.locks = nil
	w.sideMaps = nil
}

func (w *W) undoPath() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		u := w.journal[i]
		if u.o.isB {
			u.o.setByte(u.i, u.v)
		} else {
			u.o.slots[u.i] = u.v
		}
	}
	w.journal = w.journal[:0]
	for i := len(w.mapJournal) - 1; i >= 0; i-- {
		u := w.mapJournal[i]
		*u.m = *u.old
		u.m.snap = false
	}
	w.mapJournal = w.mapJournal[:0]
}

// newByteVar creates the next symbolic byte, restricted to set.
func (w *W) newByteVar(set bset) *Expr {
	id := w.nvars
	w.nvars++
	e := w.ctx.newVar(id, 8)
	w.dom = append(w.dom, set)
	w.inMulti = append(w.inMulti, false)
	if id >= len(w.model) {
		v := set.first()
		for _, c := range []byte("a1x <") {
			if set.has(c) {
				v = c
				break
			}
		}
		w.model = append(w.model, uint64(v))
	}
	return e
}

func (w *W) mget(v int32) uint64 { return w.model[v] }

func (w *W) evalModel(e *Expr) uint64 {
	if e.size > 40 {
		return w.ctx.eval(e, w.mget, map[*Expr]uint64{})
	}
	return w.ctx.eval(e, w.mget, nil)
}

// tri evaluates a condition under the per-variable domains: 1 true, 0 false, -1 open.
func (w *W) tri(e *Expr) int {
	budget := 60
	return w.tri1(e, &budget)
}

func (w *W) tri1(e *Expr, budget *int) int {
	if e.op == oConst {
		return int(e.k)
	}
	if *budget--; *budget < 0 {
		return -1
	}
	if len(e.vars) == 1 {
		v := e.vars[0]
		if e.w == 0 {
			t := w.ctx.truth(e)
			d := w.dom[v]
			if d.and(*t).empty() {
				return 0
			}
			if d.andNot(*t).empty() {
				return 1
			}
		}
		return -1
	}
	if v, ok := w.known[e]; ok {
		if v {
			return 1
		}
		return 0
	}
	switch e.op {
	case oNot:
		if r := w.tri1(e.a, budget); r >= 0 {
			return 1 - r
		}
	case oAnd:
		l := w.tri1(e.a, budget)
		if l == 0 {
			return 0
		}
		r := w.tri1(e.b, budget)
		if r == 0 {
			return 0
		}
		if l == 1 && r == 1 {
			return 1
		}
	case oOr:
		l := w.tri1(e.a, budget)
		if l == 1 {
			return 1
		}
		r := w.tri1(e.b, budget)
		if r == 1 {
			return 1
		}
		if l == 0 && r == 0 {
			return 0
		}
	case oIte:
		if e.w == 0 {
			switch w.tri1(e.a, budget) {
			case 1:
				return w.tri1(e.b, budget)
			case 0:
				return w.tri1(e.c, budget)
			}
		}
	case oEq:
		if e.a.op == oVar && e.b.op == oVar && e.a.w == 8 {
			da, db := w.dom[e.a.k], w.dom[e.b.k]
			if da.and(db).empty() {
				return 0
			}
			if da.count() == 1 && da == db {
				return 1
			}
		}
	}
	return -1
}

// slice collects the domains and constraints connected to the variables of e.
func (w *W) slice(vars []int32) ([]domC, []*Expr, []int32) {
	in := map[int32]bool{}
	var list []int32
	add := func(v int32) {
		if !in[v] {
			in[v] = true
			list = append(list, v)
		}
	}
	for _, v := range vars {
		add(v)
	}
	var cs []*Expr
	used := make([]bool, len(w.multi))
	for changed := true; changed; {
		changed = false
		for i, c := range w.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				cs = append(cs, c)
				for _, v := range c.vars {
					add(v)
				}
			}
		}
	}
	sortVars(list)
	doms := make([]domC, len(list))
	for i, v := range list {
		doms[i] = domC{v, w.dom[v]}
	}
	return doms, cs, list
}

// feasible decides whether PC and c is satisfiable; a model for the touched
// variables is returned (nil if the current model already satisfies c).
func (w *W) feasible(c *Expr) (bool, map[int32]uint64) {
	if c.op == oConst {
		return c.k != 0, nil
	}
	if w.evalModel(c) != 0 {
		w.stBranchModel++
		return true, nil
	}
	if len(c.vars) == 1 && !w.eng.allSolver {
		v := c.vars[0]
		d := w.dom[v].and(*w.ctx.truth(c))
		if d.empty() {
			w.stBranchDom++
			return false, nil
		}
		if !w.inMulti[v] {
			w.stBranchDom++
			return true, map[int32]uint64{v: uint64(d.first())}
		}
	}
	w.stBranchSolver++
	doms, cs, list := w.slice(c.vars)
	cs = append(cs, c)
	v, m := w.solver.check(doms, cs, list)
	switch v {
	case vUnsat:
		return false, nil
	case vSat:
		return true, m
	}
	w.stUnknown++
	// unknown: explore it; anything reported later has to replay
	return true, nil
}

func (w *W) withModel(m map[int32]uint64) []uint64 {
	r := append([]uint64(nil), w.model...)
	for k, v := range m {
		r[k] = v
	}
	return r
}

// assume adds c to the path condition (feasibility already known).
func (w *W) assume(c *Expr) {
	w.pcN++
	var buf [8]*Expr
	for _, e := range conjuncts(c, buf[:0]) {
		if e.op == oConst {
			if e.k == 0 {
				panic(pathKill{"false"})
			}
			continue
		}
		if len(e.vars) == 1 {
			v := e.vars[0]
			w.dom[v] = w.dom[v].and(*w.ctx.truth(e))
			if w.dom[v].empty() {
				panic(pathKill{"empty domain"})
			}
			continue
		}
		if w.tri(e) == 1 {
			continue
		}
		w.multi = append(w.multi, e)
		w.known[e] = true
		w.known[w.ctx.not(e)] = false
		for _, v := range e.vars {
			w.inMulti[v] = true
		}
	}
}

func (w *W) push(d int64, m map[int32]uint64) {
	p := make([]int64, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = d
	w.spawn(task{p, w.withModel(m)})
}

func (w *W) applyModel(m map[int32]uint64) {
	for k, v := range m {
		w.model[k] = v
	}
}

// branch decides a boolean condition, splitting the path when both outcomes are possible.
func (w *W) branch(c *Expr) bool {
	switch w.tri(c) {
	case 0:
		return false
	case 1:
		return true
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	return w.pick([]*Expr{c, w.ctx.not(c)}) == 0
}

// pick chooses one of several exhaustive, mutually exclusive guards.
func (w *W) pick(gs []*Expr) int {
	if w.spec > 0 {
		panic(specAbort{})
	}
	if n := len(w.dec); n < len(w.prefix) {
		g := int(w.prefix[n])
		w.dec = append(w.dec, int64(g))
		w.assume(gs[g])
		return g
	}
	w.checkTime()
	best := -1
	var bm map[int32]uint64
	type alt struct {
		g int
		m map[int32]uint64
	}
	var alts []alt
	for i, g := range gs {
		if len(gs) == 2 && i == 1 && best < 0 && len(alts) == 0 {
			// first side infeasible: the other one must be feasible
			if w.evalModel(g) != 0 {
				best = i
				continue
			}
		}
		ok, m := w.feasible(g)
		if !ok {
			continue
		}
		if m == nil && best < 0 {
			best, bm = i, nil
			continue
		}
		alts = append(alts, alt{i, m})
	}
	if best < 0 {
		if len(alts) == 0 {
			panic(pathKill{"no feasible alternative"})
		}
		best, bm = alts[0].g, alts[0].m
		alts = alts[1:]
	}
	for _, a := range alts {
		w.push(int64(a.g), a.m)
	}
	w.dec = append(w.dec, int64(best))
	w.applyModel(bm)
	w.assume(gs[best])
	return best
}

// choose picks one of n structural alternatives.
func (w *W) choose(n int) int {
	if n <= 0 {
		panic(pathKill{"empty choice"})
	}
	if n == 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	if k := len(w.dec); k < len(w.prefix) {
		g := w.prefix[k]
		w.dec = append(w.dec, g)
		return int(g)
	}
	w.checkTime()
	for i := n - 1; i >= 1; i-- {
		w.push(int64(i), nil)
	}
	w.dec = append(w.dec, 0)
	return 0
}

// concretize splits the path over the possible values of e.
func (w *W) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.k
	}
	if len(e.vars) == 1 && w.dom[e.vars[0]].count() == 1 {
		return w.ctx.evalOne(e, uint64(w.dom[e.vars[0]].first()))
	}
	if w.spec > 0 {
		panic(specAbort{})
	}
	for i := 0; ; i++ {
		if i > 300 {
			panic(pathLimit{"too many values when concretising"})
		}
		var v uint64
		if k := len(w.dec); k < len(w.prefix) {
			v = uint64(w.prefix[k])
		} else {
			v = w.evalModel(e)
		}
		w.dec = append(w.dec, int64(v))
		var k *Expr
		if e.w == wFP {
			k = w.ctx.mk(oFConst, wFP, v, nil, nil, nil)
			k = w.ctx.bin(oFEq, e, k)
		} else {
			k = w.ctx.bin(oEq, e, w.ctx.bv(v, e.w))
		}
		if w.branch(k) {
			return v
		}
	}
}

func (w *W) checkTime() {
	if !w.deadline.IsZero() && time.Now().After(w.deadline) {
		panic(pathLimit{"time budget"})
	}
}

// truthOf forces a boolean value.
func (w *W) truthOf(v Val) bool {
	if v.p == nil {
		return v.n != 0
	}
	return w.branch(v.p.(*Expr))
}

// intOf forces an integer value of width wd.
func (w *W) intOf(v Val, wd uint8, signed bool) uint64 {
	if v.p == nil {
		return v.n
	}
	if e, ok := v.p.(*Expr); ok {
		return canon(w.concretize(e), wd, signed)
	}
	return v.n
}

func (w *W) rtPanic(msg string) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{v: Val{p: &Iface{t: types.Typ[types.String], v: newStr("runtime error: " + msg)}}, msg: "runtime error: " + msg})
}

func (w *W) unsup(f string, a ...any) {
	if w.spec > 0 {
		panic(specAbort{})
	}
	panic(unsupported{fmt.Sprintf(f, a...)})
}

// doAssert handles a harness assertion.
func (w *W) doAssert(c Val, msg string) {
	w.stAsserts++
	if c.p == nil {
		w.stAssertConst++
		if c.n != 0 {
			return
		}
		panic(violation{msg})
	}
	e := c.p.(*Expr)
	if w.spec > 0 {
		panic(specAbort{})
	}
	// the prefix was explored by an earlier run, its obligations are discharged there
	if len(w.dec) < len(w.prefix) {
		w.assume(e)
		return
	}
	n := w.ctx.not(e)
	w.stAssertSolver++
	doms, cs, list := w.slice(n.vars)
	cs = append(cs, n)
	v, m := w.solver.check(doms, cs, list)
	switch v {
	case vUnsat:
		w.assume(e)
		return
	case vSat:
		w.onViolation(w, msg, w.withModel(m))
		// go on with the values that satisfy the assertion
		ok, m2 := w.feasible(e)
		if !ok {
			panic(pathKill{"assertion always false"})
		}
		w.applyModel(m2)
		w.assume(e)
		return
	}
	w.eng.addLimit("solver unknown on an assertion")
	w.assume(e)
}
