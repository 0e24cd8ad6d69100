package main

import (
	"errors"
	"strings"

	"github.com/netascode/xmldot"
)

// Reference reading of writes: where a path points, and what a written document
// must look like.

// refFind returns the element an element/index path addresses, or nil.
func refFind(level []*rnode, segs []rseg) *rnode {
	if len(segs) == 0 {
		return nil
	}
	ms := matching(level, segs[0])
	if len(segs) > 1 && segs[1].k == 'i' {
		i := segs[1].idx
		if i < 0 || i >= len(ms) {
			return nil
		}
		if len(segs) == 2 {
			return ms[i]
		}
		return refFind(ms[i].kids, segs[2:])
	}
	for _, m := range ms {
		if len(segs) == 1 {
			return m
		}
		if n := refFind(m.kids, segs[1:]); n != nil {
			return n
		}
	}
	return nil
}

// chain reports whether x is exactly <n1><n2>..text..</n2></n1> with the given
// names, and text (decoded) inside the innermost element.
func chain(x string, segs []rseg, text string) bool {
	d := refParse(x)
	if !d.ok || len(d.roots) != 1 || len(d.misc) != 0 {
		return false
	}
	n := d.roots[0]
	if n.start != 0 || n.end != len(x) {
		return false
	}
	for i, sg := range segs {
		if !sameName(n.name, sg.name) || len(n.attrs) != 0 || len(n.misc) != 0 {
			return false
		}
		if i == len(segs)-1 {
			return len(n.kids) == 0 && refUnescape(n.raw(x)) == text && !strings.Contains(n.raw(x), "<")
		}
		if len(n.kids) != 1 || len(n.text) != 0 {
			return false
		}
		n = n.kids[0]
	}
	return false
}

// textOnly reports whether x is character data that decodes to text.
func textOnly(x, text string) bool {
	return !strings.Contains(x, "<") && refUnescape(x) == text
}

func sameAttrs(a, b []rattr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].name != b[i].name || refUnescape(a[i].val) != refUnescape(b[i].val) {
			return false
		}
	}
	return true
}

// setResult checks the document written by Set of text v on an element path.
// segs holds only element and index steps.
func setResult(s string, d *rdoc, segs []rseg, out, v string) bool {
	if n := refFind(d.roots, segs); n != nil {
		if !n.self {
			return cut(out, s[:n.openEnd], s[n.close:], func(m string) bool { return textOnly(m, v) })
		}
		return cut(out, s[:n.start], s[n.end:], func(m string) bool {
			r := refParse(m)
			if !r.ok || len(r.roots) != 1 || r.roots[0].end != len(m) || r.roots[0].start != 0 {
				return false
			}
			x := r.roots[0]
			return x.name == n.name && sameAttrs(x.attrs, n.attrs) && len(x.kids) == 0 && textOnly(x.raw(m), v)
		})
	}
	// created: inside the deepest existing ancestor, or after everything
	for i := len(segs) - 1; i >= 1; i-- {
		n := refFind(d.roots, segs[:i])
		if n == nil {
			continue
		}
		return insideEnd(s, n, out, func(m string) bool { return chain(m, segs[i:], v) })
	}
	return cut(out, s, "", func(m string) bool { return chain(m, segs, v) })
}

// insideEnd checks that out is s with something accepted by f inserted at the
// end of the content of n (which is expanded if it was self-closing).
func insideEnd(s string, n *rnode, out string, f func(string) bool) bool {
	if !n.self {
		return cut(out, s[:n.close], s[n.close:], f)
	}
	return cut(out, s[:n.start], s[n.end:], func(m string) bool {
		r := refParse(m)
		if !r.ok || len(r.roots) != 1 || r.roots[0].end != len(m) || r.roots[0].start != 0 {
			return false
		}
		x := r.roots[0]
		return x.name == n.name && sameAttrs(x.attrs, n.attrs) && f(x.raw(m))
	})
}

// cut checks that out is pre + m + post for an m accepted by f.
func cut(out, pre, post string, f func(string) bool) bool {
	if len(out) < len(pre)+len(post) || out[:len(pre)] != pre || out[len(out)-len(post):] != post {
		return false
	}
	return f(out[len(pre) : len(out)-len(post)])
}

// creatable reports whether the part of the path that does not exist can be
// written: element steps with names XML allows.
func creatable(d *rdoc, segs []rseg) bool {
	from := 0
	for i := len(segs); i >= 1; i-- {
		if refFind(d.roots, segs[:i]) != nil {
			from = i
			break
		}
	}
	for _, sg := range segs[from:] {
		if sg.k != 'e' || !validName(sg.name) {
			return false
		}
	}
	return true
}

func validName(n string) bool {
	return n != "" && isNameStart(n[0]) && nameEnd(n, 1) == len(n)
}

// sentinel reports which of the three documented errors err wraps; exactly one
// must apply.
func sentinel(err error) error {
	var r error
	k := 0
	for _, e := range []error{xmldot.ErrMalformedXML, xmldot.ErrInvalidPath, xmldot.ErrInvalidValue} {
		if errors.Is(err, e) {
			r = e
			k++
		}
	}
	if k != 1 {
		return nil
	}
	return r
}

func foldOptions() *xmldot.Options { return &xmldot.Options{CaseSensitive: false} }

// The operation under check, case-insensitive when the reference is.
func doSet(s, p string, v interface{}) (string, error) {
	if refFold {
		return xmldot.SetWithOptions(s, p, v, foldOptions())
	}
	return xmldot.Set(s, p, v)
}

func doDelete(s, p string) (string, error) {
	if refFold {
		out, err := xmldot.DeleteBytesWithOptions([]byte(s), p, foldOptions())
		return string(out), err
	}
	return xmldot.Delete(s, p)
}

func doGet(s, p string) xmldot.Result {
	if refFold {
		return xmldot.GetWithOptions(s, p, foldOptions())
	}
	return xmldot.Get(s, p)
}

// sameName compares whole names, prefix included.
func sameName(a, b string) bool {
	return a == b || refFold && lower(a) == lower(b)
}

// checkSet performs Set of a text and checks everything promised about it.
func checkSet(s string, d *rdoc, path, v string) {
	segs := steps(path)
	out, err := doSet(s, path, v)
	if !creatable(d, segs) {
		vAssert(err != nil && out == s, "Set "+path+" refuses a path that cannot be written")
		vAssert(sentinel(err) == xmldot.ErrInvalidPath, "a path that cannot be written is ErrInvalidPath")
		vObs("refused")
		return
	}
	vAssert(err == nil, "Set "+path+" succeeds")
	vAssert(setResult(s, d, segs, out, v), "Set "+path+" changes exactly its target")
	g := doGet(out, path)
	vAssert(g.Type == xmldot.Element && g.Str == strings.TrimSpace(v) || g.Type == xmldot.Element && g.Str == refUnescape(strings.TrimSpace(refEscape(v))), "Get "+path+" after Set returns the text")
	vObs(out)
}

// refAttrOwner returns the element whose attribute an attribute path reads.
func refAttrOwner(level []*rnode, segs []rseg, name string) *rnode {
	ms := matching(level, segs[0])
	rest := segs[1:]
	if len(rest) > 0 && rest[0].k == 'i' {
		i := rest[0].idx
		if i < 0 || i >= len(ms) {
			return nil
		}
		ms = ms[i : i+1]
		rest = rest[1:]
	}
	for _, m := range ms {
		if len(rest) == 0 {
			if _, ok := m.attr(name); ok {
				return m
			}
			return nil
		}
		if n := refAttrOwner(m.kids, rest, name); n != nil {
			return n
		}
	}
	return nil
}

// retagged checks that out is s with the start tag of n rewritten so that its
// attributes read the same, except that name has the given value (or is gone).
func retagged(s string, n *rnode, out, name, v string, gone bool) bool {
	return cut(out, s[:n.start], s[n.openEnd:], func(m string) bool {
		end := ""
		if !n.self {
			end = "</" + n.name + ">"
		}
		r := refParse(m + end)
		if !r.ok || len(r.roots) != 1 {
			return false
		}
		x := r.roots[0]
		if x.name != n.name || x.start != 0 || x.openEnd != len(m) || x.self != n.self {
			return false
		}
		for _, a := range n.attrs {
			want, _ := n.attr(a.name)
			got, ok := x.attr(a.name)
			if sameName(a.name, name) {
				continue
			}
			if !ok || got != want {
				return false
			}
		}
		for _, a := range x.attrs {
			if _, ok := n.attr(a.name); !ok && !sameName(a.name, name) {
				return false
			}
		}
		got, ok := x.attr(name)
		if gone {
			return !ok
		}
		return ok && got == v
	})
}

// checkSetAttr performs Set on elem.@name and checks everything promised.
func checkSetAttr(s string, d *rdoc, elem, name, v string) {
	segs := steps(elem)
	p := elem + ".@" + name
	out, err := doSet(s, p, v)
	if !creatable(d, segs) || !validName(name) {
		vAssert(err != nil && out == s, "Set "+p+" refuses a path that cannot be written")
		vAssert(sentinel(err) == xmldot.ErrInvalidPath, "a path that cannot be written is ErrInvalidPath")
		return
	}
	vAssert(err == nil, "Set "+p+" succeeds")
	g := doGet(out, p)
	vAssert(g.Type == xmldot.Attribute && g.Str == v, "Get "+p+" after Set returns the value exactly")
	if n := refFind(d.roots, segs); n != nil {
		vAssert(retagged(s, n, out, name, v, false), "Set "+p+" changes exactly its attribute")
	} else {
		ok := false
		has := func(m string, k []rseg) bool {
			r := refParse(m)
			if !r.ok || len(r.roots) != 1 || r.roots[0].start != 0 || r.roots[0].end != len(m) {
				return false
			}
			x := r.roots[0]
			for i := range k {
				if !sameName(x.name, k[i].name) || len(x.text) != 0 || len(x.misc) != 0 {
					return false
				}
				if i == len(k)-1 {
					got, has := x.attr(name)
					return len(x.kids) == 0 && len(x.attrs) == 1 && has && got == v
				}
				if len(x.kids) != 1 || len(x.attrs) != 0 {
					return false
				}
				x = x.kids[0]
			}
			return false
		}
		for i := len(segs) - 1; i >= 1 && !ok; i-- {
			if n := refFind(d.roots, segs[:i]); n != nil {
				ok = insideEnd(s, n, out, func(m string) bool { return has(m, segs[i:]) })
				break
			}
			if i == 1 {
				ok = cut(out, s, "", func(m string) bool { return has(m, segs) })
			}
		}
		if len(segs) == 1 {
			ok = cut(out, s, "", func(m string) bool { return has(m, segs) })
		}
		vAssert(ok, "Set "+p+" creates exactly the missing elements with the attribute")
	}
	vObs(out)
}

// checkDelete performs Delete of an element or attribute path.
func checkDelete(s string, d *rdoc, p string) {
	segs := steps(p)
	out, err := doDelete(s, p)
	vAssert(err == nil, "Delete "+p+" succeeds")
	last := segs[len(segs)-1]
	if last.k == 'a' {
		n := refAttrOwner(d.roots, segs[:len(segs)-1], last.name)
		if n == nil {
			vAssert(out == s, "Delete of a missing attribute changes nothing")
		} else {
			vAssert(retagged(s, n, out, last.name, "", true), "Delete "+p+" removes exactly that attribute")
		}
	} else {
		n := refFind(d.roots, segs)
		if n == nil {
			vAssert(out == s, "Delete of a missing element changes nothing")
		} else {
			vAssert(out == s[:n.start]+s[n.end:], "Delete "+p+" removes exactly that element")
		}
	}
	vObs(out)
}
