package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// Reference query evaluation over the reference tree.

// rseg is one path step: 'e' element, 'a' attribute, 't' text, 'i' index,
// 'n' count, 'f' field of each, 'w' any child, 'd' any descendant, 'q' filter.
type rseg struct {
	k    byte
	name string
	idx  int
	cond func(n *rnode, s string) bool
	all  bool
}

// rval is a reference result: 0 nothing, 'E' element, 'A' attribute, 'S' text,
// 'N' number, 'L' list.
type rval struct {
	k    byte
	str  string
	raw  string
	n    int
	list []rval
}

// splitName separates a namespace prefix.
func splitName(n string) (string, string) {
	for i := 0; i < len(n); i++ {
		if n[i] == ':' {
			return n[:i], n[i+1:]
		}
	}
	return "", n
}

// refFold is set by harnesses that query case-insensitively.
var refFold bool

func lower(s string) string {
	out := make([]byte, len(s))
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		out[i] = c
	}
	return string(out)
}

func nameMatches(want, have string) bool {
	if refFold {
		want, have = lower(want), lower(have)
	}
	wp, wl := splitName(want)
	hp, hl := splitName(have)
	return wl == hl && (wp == "" || wp == hp)
}

func spans(s string, sp []rspan) string {
	out := ""
	for _, x := range sp {
		out += s[x.from:x.to]
	}
	return out
}

func (n *rnode) raw(s string) string    { return s[n.openEnd:n.close] }
func (n *rnode) full(s string) string   { return refUnescape(strings.TrimSpace(spans(s, n.all))) }
func (n *rnode) direct(s string) string { return refUnescape(strings.TrimSpace(spans(s, n.text))) }

// attr returns the decoded value; a repeated attribute counts with its last value.
func (n *rnode) attr(name string) (string, bool) {
	for i := len(n.attrs) - 1; i >= 0; i-- {
		if n.attrs[i].name == name {
			return refUnescape(n.attrs[i].val), true
		}
	}
	if !refFold {
		return "", false
	}
	// case-insensitively: the first in byte order of those that differ only in case
	best := -1
	for i := range n.attrs {
		if lower(n.attrs[i].name) != lower(name) {
			continue
		}
		if best < 0 || n.attrs[i].name <= n.attrs[best].name {
			best = i
		}
	}
	if best < 0 {
		return "", false
	}
	return refUnescape(n.attrs[best].val), true
}

func elemVal(s string, n *rnode) rval { return rval{k: 'E', str: n.full(s), raw: n.raw(s)} }
func textVal(s string, n *rnode) rval { return rval{k: 'S', str: n.direct(s), raw: n.raw(s)} }
func attrVal(n *rnode, name string) rval {
	v, ok := n.attr(name)
	if !ok {
		return rval{}
	}
	return rval{k: 'A', str: v, raw: v}
}

func matching(level []*rnode, sg rseg) []*rnode {
	if sg.k == 'w' {
		return level
	}
	var ms []*rnode
	for _, n := range level {
		if nameMatches(sg.name, n.name) {
			ms = append(ms, n)
		}
	}
	return ms
}

// within evaluates the remaining steps on a chosen element.
func within(s string, n *rnode, segs []rseg) rval {
	if len(segs) == 0 {
		return elemVal(s, n)
	}
	switch segs[0].k {
	case 'a':
		if len(segs) > 1 {
			return rval{}
		}
		return attrVal(n, segs[0].name)
	case 't':
		return textVal(s, n)
	case 'f':
		return fields(s, []*rnode{n}, segs[0].name)
	}
	return refGet(s, n.kids, segs)
}

func fields(s string, ms []*rnode, f string) rval {
	r := rval{k: 'L'}
	for _, m := range ms {
		if f == "%" {
			t := strings.TrimSpace(spans(s, m.text))
			if t != "" {
				r.list = append(r.list, rval{k: 'S', str: refUnescape(t), raw: t})
			}
		} else if f[0] == '@' {
			if v := attrVal(m, f[1:]); v.k != 0 {
				r.list = append(r.list, v)
			}
		} else {
			for _, c := range m.kids {
				if nameMatches(f, c.name) {
					r.list = append(r.list, elemVal(s, c))
				}
			}
		}
	}
	return r
}

// pack turns collected results into one: several as a list, one as itself.
func pack(l []rval) rval {
	if len(l) == 0 {
		return rval{}
	}
	if len(l) == 1 {
		return l[0]
	}
	return rval{k: 'L', list: l}
}

func add(l []rval, r rval) []rval {
	if r.k == 'L' {
		return append(l, r.list...)
	}
	if r.k != 0 {
		return append(l, r)
	}
	return l
}

func filtered(s string, ms []*rnode, segs []rseg) rval {
	q := segs[0]
	var ok []*rnode
	for _, m := range ms {
		if q.cond(m, s) {
			ok = append(ok, m)
		}
	}
	if len(ok) == 0 {
		return rval{}
	}
	if !q.all {
		return within(s, ok[0], segs[1:])
	}
	if len(segs) > 1 && segs[1].k == 'f' {
		return fields(s, ok, segs[1].name)
	}
	var l []rval
	for _, m := range ok {
		l = add(l, within(s, m, segs[1:]))
	}
	if len(segs) == 1 {
		return rval{k: 'L', list: l}
	}
	return pack(l)
}

func descend(s string, level []*rnode, segs []rseg, out []rval) []rval {
	for _, n := range level {
		out = descend(s, n.kids, segs, out)
		if segs[0].k == 'w' || segs[0].k == 'e' && nameMatches(segs[0].name, n.name) {
			out = add(out, within(s, n, segs[1:]))
		}
	}
	return out
}

func refGet(s string, level []*rnode, segs []rseg) rval {
	if len(segs) == 0 {
		return rval{}
	}
	sg := segs[0]
	switch sg.k {
	case 'q':
		return filtered(s, level, segs)
	case 'd':
		if len(segs) == 1 {
			return rval{}
		}
		return pack(descend(s, level, segs[1:], nil))
	case 'w':
		var l []rval
		list := false
		for _, m := range level {
			r := within(s, m, segs[1:])
			list = list || r.k == 'L'
			l = add(l, r)
		}
		if len(l) == 0 && list {
			return rval{k: 'L'}
		}
		return pack(l)
	case 'e':
		ms := matching(level, sg)
		if len(ms) == 0 && len(segs) > 1 && segs[1].k == 'f' && (len(level) == 0 || level[0].parent != nil) {
			return rval{k: 'L'}
		}
		if len(ms) == 0 {
			return rval{}
		}
		if len(segs) == 1 {
			return elemVal(s, ms[0])
		}
		switch segs[1].k {
		case 'i':
			i := segs[1].idx
			if i < 0 || i >= len(ms) {
				return rval{}
			}
			return within(s, ms[i], segs[2:])
		case 'n':
			return rval{k: 'N', n: len(ms), str: itoa(len(ms))}
		case 'f':
			return fields(s, ms, segs[1].name)
		case 'q':
			return filtered(s, ms, segs[1:])
		case 'a', 't':
			return within(s, ms[0], segs[1:])
		}
		for _, m := range ms {
			if r := refGet(s, m.kids, segs[1:]); r.k != 0 {
				return r
			}
		}
	}
	return rval{}
}

func itoa(n int) string {
	if n < 0 {
		return "-" + itoa(-n)
	}
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// same reports whether a result is the reference result.
func same(r xmldot.Result, v rval) bool {
	switch v.k {
	case 0:
		return !r.Exists() && r.Type == xmldot.Null
	case 'E':
		return r.Type == xmldot.Element && r.Str == v.str && r.Raw == v.raw && r.Exists()
	case 'A':
		return r.Type == xmldot.Attribute && r.Str == v.str && r.Raw == v.raw && r.Exists()
	case 'S':
		return r.Type == xmldot.String && r.Str == v.str && r.Raw == v.raw && r.Exists()
	case 'N':
		return r.Type == xmldot.Number && r.Num == float64(v.n) && r.Str == v.str && r.Exists()
	}
	if r.Type != xmldot.Array || len(r.Results) != len(v.list) {
		return false
	}
	for i, x := range v.list {
		if !same(r.Results[i], x) {
			return false
		}
	}
	return true
}

func obsVal(v rval) {
	if v.k == 'L' {
		vObs("list " + itoa(len(v.list)))
		return
	}
	vObs(string([]byte{'0' + v.k/16, '0' + v.k%16}) + v.str)
}

// steps reads a compact path description used by harnesses: names, @name, %,
// #, digits, * and ** separated by dots, and #.field.
func steps(p string) []rseg {
	parts := strings.Split(p, ".")
	var out []rseg
	for i := 0; i < len(parts); i++ {
		x := parts[i]
		switch {
		case x == "#" && i+1 < len(parts):
			i++
			out = append(out, rseg{k: 'f', name: parts[i]})
		case x == "#":
			out = append(out, rseg{k: 'n'})
		case x == "%":
			out = append(out, rseg{k: 't'})
		case x == "*":
			out = append(out, rseg{k: 'w'})
		case x == "**":
			out = append(out, rseg{k: 'd'})
		case x[0] == '@':
			out = append(out, rseg{k: 'a', name: x[1:]})
		case x[0] >= '0' && x[0] <= '9' || x[0] == '-':
			n, neg := 0, x[0] == '-'
			for j := 0; j < len(x); j++ {
				if x[j] != '-' {
					n = n*10 + int(x[j]-'0')
				}
			}
			if neg {
				n = -n
			}
			out = append(out, rseg{k: 'i', idx: n})
		default:
			out = append(out, rseg{k: 'e', name: x})
		}
	}
	return out
}

// checkGet compares Get with the reference on one path.
func checkGet(s string, d *rdoc, path string) {
	want := refGet(s, d.roots, steps(path))
	got := doGet(s, path)
	vAssert(same(got, want), "Get "+path+" equals the reading of the document tree")
	obsVal(want)
}
