package main

import (
	"fmt"
	"strings"
)

// Two threads of the code under test run as coroutines of one path. The
// schedule is a sequence of choices, one before every lock acquisition; memory
// accesses between synchronisation operations are collected per segment and the
// solver decides whether two conflicting ones can be unordered.

const (
	evLock = iota
	evUnlock
	evRLock
	evRUnlock
)

// epoch is a stretch of one thread between two synchronisation operations.
type epoch struct {
	thread int
	idx    int
}

type lockState struct {
	w       bool
	r       int
	waiting int // writers that wait: new readers queue behind them
	wrel    []epoch
	rrel    []epoch
}

func (l *lockState) free(kind int, waiter bool) bool {
	if kind == evRLock {
		return !l.w && l.waiting == 0
	}
	return !l.w && l.r == 0
}

type coro struct {
	resume      chan struct{}
	exited      chan struct{}
	stack       [][]Val
	depth       int
	sp, chunk   int
	done        bool
	blocked     *lockState
	blockedKind int
	panicV      any
}

type accKey struct {
	loc any
	off uint64
}
type accEnt struct {
	e     epoch
	write bool
}

type parState struct {
	cur   int
	left  int // switches away from a thread that could go on
	th    [2]*coro
	abort bool
	main  chan struct{}
	ep    [2]int
	edges [][2]epoch
	acc   map[accKey][]accEnt
}

func (w *W) access(loc any, off uint64, write bool) {
	p := w.par
	if p == nil || w.muted > 0 {
		return
	}
	k := accKey{loc, off}
	e := epoch{p.cur, p.ep[p.cur]}
	l := p.acc[k]
	for i := len(l) - 1; i >= 0; i-- {
		if l[i].e == e {
			if write {
				l[i].write = true
			}
			return
		}
		if l[i].e.thread != e.thread {
			break
		}
	}
	p.acc[k] = append(l, accEnt{e, write})
}

func (w *W) accessN(loc any, off, n uint64, write bool) {
	if w.par == nil {
		return
	}
	for i := uint64(0); i < n; i++ {
		w.access(loc, off+i, write)
	}
}

func (w *W) lockOf(p Val) *lockState {
	o, ok := p.p.(*Obj)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	k := sideKey{o, p.n}
	l := w.locks[k]
	if l == nil {
		if w.locks == nil {
			w.locks = map[sideKey]*lockState{}
		}
		l = &lockState{}
		w.locks[k] = l
	}
	return l
}

func (w *W) lockOp(p Val, kind int) {
	l := w.lockOf(p)
	switch kind {
	case evLock, evRLock:
		if w.cur == nil || w.cur.pkgPath == "" || strings.HasPrefix(w.cur.pkgPath, modPath) {
			w.schedPoint() // locks inside the standard library are not ours to reorder
		}
		if !l.free(kind, false) {
			w.block(l, kind)
		}
		if kind == evLock {
			l.w = true
		} else {
			l.r++
		}
		if p := w.par; p != nil {
			p.ep[p.cur]++
			to := epoch{p.cur, p.ep[p.cur]}
			for _, e := range l.wrel {
				p.edges = append(p.edges, [2]epoch{e, to})
			}
			if kind == evLock {
				for _, e := range l.rrel {
					p.edges = append(p.edges, [2]epoch{e, to})
				}
			}
		}
	case evUnlock, evRUnlock:
		if kind == evUnlock && !l.w || kind == evRUnlock && l.r == 0 {
			panic(violation{"unlock of an unlocked mutex"})
		}
		if kind == evUnlock {
			l.w = false
		} else {
			l.r--
		}
		if p := w.par; p != nil {
			e := epoch{p.cur, p.ep[p.cur]}
			if kind == evUnlock {
				l.wrel = append(l.wrel, e)
			} else {
				l.rrel = append(l.rrel, e)
			}
			p.ep[p.cur]++
		}
	}
}

// atomicOp orders an atomic operation after all earlier ones on the location.
func (w *W) atomicOp(v Val) {
	p := w.par
	if p == nil {
		return
	}
	l := w.lockOf(v)
	p.ep[p.cur]++
	to := epoch{p.cur, p.ep[p.cur]}
	for _, e := range l.wrel {
		p.edges = append(p.edges, [2]epoch{e, to})
	}
	l.wrel = append(l.wrel, to)
	p.ep[p.cur]++
}

func (p *parState) runnable(i int) bool {
	c := p.th[i]
	return !c.done && (c.blocked == nil || c.blocked.free(c.blockedKind, true))
}

// schedPoint lets the other thread run first, as one of the alternatives.
func (w *W) schedPoint() {
	p := w.par
	if p == nil || p.left == 0 || !p.runnable(1-p.cur) {
		return
	}
	c := w.choose(2)
	w.tape = append(w.tape, tapeEnt{v: int64(c)})
	if c == 1 {
		p.left--
		w.switchTo(1 - p.cur)
	}
}

func (w *W) block(l *lockState, kind int) {
	p := w.par
	if p == nil {
		panic(violation{"deadlock: a lock is taken twice"})
	}
	me := p.th[p.cur]
	me.blocked, me.blockedKind = l, kind
	if kind == evLock {
		l.waiting++
	}
	for !l.free(kind, true) {
		if !p.runnable(1 - p.cur) {
			panic(violation{"deadlock between two calls"})
		}
		w.switchTo(1 - p.cur)
	}
	if kind == evLock {
		l.waiting--
	}
	me.blocked = nil
}

func (w *W) saveTo(c *coro)   { c.stack, c.depth, c.sp, c.chunk = w.stack, w.depth, w.sp, w.chunk }
func (w *W) loadFrom(c *coro) { w.stack, w.depth, w.sp, w.chunk = c.stack, c.depth, c.sp, c.chunk }

func (w *W) switchTo(i int) {
	p := w.par
	me := p.th[p.cur]
	fn := w.cur
	w.saveTo(me)
	p.cur = i
	w.loadFrom(p.th[i])
	p.th[i].resume <- struct{}{}
	<-me.resume
	w.cur = fn
	if p.abort {
		panic(pathKill{"abandoned"})
	}
}

// parallel runs two closures in every order of their lock operations with at
// most the given number of preemptions.
func (w *W) parallel(switches int, fs [2]Val) {
	if w.par != nil {
		w.unsup("nested vPar")
	}
	p := &parState{left: switches, main: make(chan struct{}), acc: map[accKey][]accEnt{}}
	root := &coro{}
	fn := w.cur
	w.saveTo(root)
	for i := range p.th {
		c := &coro{resume: make(chan struct{}), exited: make(chan struct{}), depth: root.depth, stack: w.coStacks[i]}
		p.th[i] = c
		go func() {
			defer close(c.exited)
			<-c.resume
			if p.abort {
				return
			}
			func() {
				defer func() { c.panicV = recover() }()
				w.callClosure(fs[i], nil)
			}()
			if p.abort {
				return
			}
			w.saveTo(c)
			c.done = true
			if c.panicV == nil && !p.th[1-i].done {
				if !p.runnable(1 - i) {
					c.panicV = violation{"deadlock: a call left a lock held"}
				} else {
					p.cur = 1 - i
					w.loadFrom(p.th[1-i])
					p.th[1-i].resume <- struct{}{}
					return
				}
			}
			p.main <- struct{}{}
		}()
	}
	w.par = p
	first := w.choose(2)
	w.tape = append(w.tape, tapeEnt{v: int64(first)})
	p.cur = first
	w.loadFrom(p.th[first])
	p.th[first].resume <- struct{}{}
	<-p.main
	p.abort = true
	for _, c := range p.th {
		select {
		case <-c.exited:
		case c.resume <- struct{}{}:
			<-c.exited
		}
	}
	for i, c := range p.th {
		w.coStacks[i] = c.stack
	}
	w.loadFrom(root)
	w.par = nil
	w.cur = fn
	for _, c := range p.th {
		if c.panicV != nil {
			panic(c.panicV)
		}
	}
	w.raceCheck(p)
}

// raceCheck asks the solver for an order of the segments that respects program
// order and the lock hand-overs and lets two conflicting accesses coincide.
func (w *W) raceCheck(p *parState) {
	type pair struct{ a, b epoch }
	pairs := map[pair]bool{}
	for _, l := range p.acc {
		for i, a := range l {
			for _, b := range l[i+1:] {
				if a.e.thread != b.e.thread && (a.write || b.write) {
					x := pair{a.e, b.e}
					if x.a.thread == 1 {
						x.a, x.b = x.b, x.a
					}
					pairs[x] = true
				}
			}
		}
	}
	w.stPairs += int64(len(pairs))
	if len(pairs) == 0 {
		return
	}
	name := func(e epoch) string { return fmt.Sprintf("t%d_%d", e.thread, e.idx) }
	var sb strings.Builder
	for t, n := range p.ep {
		for i := 0; i <= n; i++ {
			fmt.Fprintf(&sb, "(declare-const %s Int)\n", name(epoch{t, i}))
			if i > 0 {
				fmt.Fprintf(&sb, "(assert (< %s %s))\n", name(epoch{t, i - 1}), name(epoch{t, i}))
			}
		}
	}
	for _, e := range p.edges {
		fmt.Fprintf(&sb, "(assert (< %s %s))\n", name(e[0]), name(e[1]))
	}
	sb.WriteString("(assert (or")
	for x := range pairs {
		fmt.Fprintf(&sb, " (= %s %s)", name(x.a), name(x.b))
	}
	sb.WriteString("))\n")
	switch w.solver.checkText(sb.String()) {
	case vSat:
		panic(violation{raceMsg})
	case vUnknown:
		w.eng.addLimit("solver unknown on an order query")
	}
}

const raceMsg = "data race: two calls access shared state without synchronisation"
