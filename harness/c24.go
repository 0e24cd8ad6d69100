package main

import (
	"errors"

	"github.com/netascode/xmldot"
)

var c24Sets = []string{"r.a", "r.b", "r.a.b", "r.a.@k", "r.a.1", "r.a.-1", "r.n.m", "", "r.a.1.b", "r.*", "z"}

var c24Deletes = []string{"r.a", "r.b", "r.a.b", "r.a.@k", "r.a.1", "r.z", "", "r.a.0", "r.*", "r"}

// sameError reports whether both fail alike: same documented error, or none.
func sameError(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return sentinel(a) != nil && sentinel(a) == sentinel(b)
}

// seqSet applies the single operations one after another.
func seqSet(s string, paths []string, values []interface{}) (string, error) {
	cur := s
	for i := range paths {
		out, err := xmldot.Set(cur, paths[i], values[i])
		if err != nil {
			return s, err
		}
		cur = out
	}
	return cur, nil
}

func seqDelete(s string, paths []string) (string, error) {
	cur := s
	for i, p := range paths {
		again := false
		for _, o := range paths[:i] {
			again = again || o == p
		}
		if again {
			continue
		}
		out, err := xmldot.Delete(cur, p)
		if err != nil {
			return s, err
		}
		cur = out
	}
	return cur, nil
}

func c24Doc() string {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand([]string{
		"<r><{1} k='1'>x</{1}><{2}><{3}/></{2}></r>",
		"<r><{1}>{t}</{1}></r>",
		"<r><{1}/><{2}/><a>1</a></r>",
	}[vChoice(3)])
	vAssume(refParse(s).ok)
	return s
}

func checkSetMany(s string, paths []string, values []interface{}) {
	want, werr := seqSet(s, paths, values)
	out, err := xmldot.SetMany(s, paths, values)
	vAssert(out == want, "SetMany equals one Set after another, or returns its input")
	vAssert(sameError(err, werr), "SetMany fails as the failing Set does")
	b := []byte(s)
	ob, eb := xmldot.SetManyBytes(b, paths, values)
	vAssert(string(ob) == want && sameError(eb, werr), "SetManyBytes equals SetMany")
	vAssert(string(b) == s, "the input bytes are unchanged")
	vObs(wrote(out, err))
}

// Two operations on any two paths, with a value that may be refused.
//
//verif:run C24 quick
func hC24Set2() {
	s := c24Doc()
	p := []string{c24Sets[vChoice(len(c24Sets))], c24Sets[vChoice(len(c24Sets))]}
	v := vStrIn(1, "v<")
	var last interface{} = v
	switch vChoice(3) {
	case 1:
		last = nil
	case 2:
		last = []int{1}
	}
	checkSetMany(s, p, []interface{}{v, last})
}

// Three operations, overlapping and repeated paths, any failing position.
//
//verif:run C24 quick
func hC24Set3() {
	s := "<r><a k='1'>x</a><a><b/></a></r>"
	few := []string{"r.a", "r.a.b", "r.a.1", "r.a.-1", "", "r.a.@k", "r.c.d"}
	p := []string{few[vChoice(len(few))], few[vChoice(len(few))], few[vChoice(len(few))]}
	checkSetMany(s, p, []interface{}{vStrIn(1, "x&"), 2, true})
}

// Paths of arbitrary bytes among good ones.
//
//verif:run C24 n=1..3 quick
//verif:run C24 n=4..4 thorough budget=600
func hC24SetPath(n int) {
	s := "<r><a k='1'>x</a><b/></r>"
	at := vChoice(3)
	p := []string{"r.a", "r.c", "r.b.@k"}
	p[at] = "r." + vStr(n)
	checkSetMany(s, p, []interface{}{"1", 2, "3"})
}

// Documents that cannot be written, and lists of different length.
//
//verif:run C24 n=0..4 quick
func hC24Refused(n int) {
	s := vStr(n)
	vAssume(!refParse(s).ok)
	checkSetMany(s, []string{"r.a", "b"}, []interface{}{"1", "2"})
	out, err := xmldot.DeleteMany(s, "r.a", "b")
	want, werr := seqDelete(s, []string{"r.a", "b"})
	vAssert(out == want && sameError(err, werr), "DeleteMany fails as Delete does")
	d := "<r><a>1</a></r>"
	k := vChoice(3)
	out, err = xmldot.SetMany(d, []string{"r.a", "r.b", "r.c"}[:k], []interface{}{"1", "2", "3"}[:k+1])
	vAssert(out == d && errors.Is(err, xmldot.ErrInvalidPath), "lists of different length are refused")
	out, err = xmldot.SetMany(s, nil, nil)
	vAssert(out == s && err == nil, "an empty list changes nothing")
	out, err = xmldot.DeleteMany(s)
	vAssert(out == s && err == nil, "an empty list changes nothing")
	vAssert(len(xmldot.GetMany(s)) == 0, "an empty list reads nothing")
}

func checkDeleteMany(s string, paths []string) {
	want, werr := seqDelete(s, paths)
	out, err := xmldot.DeleteMany(s, paths...)
	vAssert(out == want, "DeleteMany equals one Delete after another, or returns its input")
	vAssert(sameError(err, werr), "DeleteMany fails as the failing Delete does")
	b := []byte(s)
	ob, eb := xmldot.DeleteManyBytes(b, paths...)
	vAssert(string(ob) == want && sameError(eb, werr), "DeleteManyBytes equals DeleteMany")
	vAssert(string(b) == s, "the input bytes are unchanged")
	vObs(wrote(out, err))
}

//verif:run C24 quick
func hC24Delete2() {
	s := c24Doc()
	checkDeleteMany(s, []string{c24Deletes[vChoice(len(c24Deletes))], c24Deletes[vChoice(len(c24Deletes))]})
}

//verif:run C24 quick
func hC24Delete3() {
	s := "<r><a k='1'>x</a><a><b/></a><a>" + vStrIn(1, "xy") + "</a></r>"
	few := []string{"r.a", "r.a.0", "r.a.1", "r.a.b", "", "r.a.@k", "r"}
	checkDeleteMany(s, []string{few[vChoice(len(few))], few[vChoice(len(few))], few[vChoice(len(few))]})
}

//verif:run C24 n=1..3 quick
//verif:run C24 n=4..4 thorough budget=600
func hC24DeletePath(n int) {
	s := "<r><a k='1'>x</a><b/><a>y</a></r>"
	p := []string{"r.a.@k", "r.b", "r.a"}
	p[vChoice(3)] = "r." + vStr(n)
	checkDeleteMany(s, p)
}

// Repeated paths count once, wherever they stand.
//
//verif:run C24 quick
func hC24Repeat() {
	s := "<r><a>1</a><a>2</a><a>" + vStrIn(1, "xy") + "</a><b/></r>"
	n := 2 + vChoice(3)
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, []string{"r.a", "r.b"}[vChoice(2)])
	}
	checkDeleteMany(s, p)
}

// GetMany answers each path as Get does.
//
//verif:run C24 n=1..3 quick
//verif:run C24 n=4..4 thorough budget=600
func hC24Get(n int) {
	s := "<r><a k='1'>x</a><b/><a>y</a></r>"
	paths := []string{"r.a", "r.z", "r.*", "r.a.#", "r.a.1"}
	paths[vChoice(5)] = "r." + vStr(n)
	rs := xmldot.GetMany(s, paths...)
	vAssert(len(rs) == len(paths), "one result for each path")
	for i, p := range paths {
		vAssert(shown(rs[i]) == shown(xmldot.Get(s, p)), "GetMany answers each path as Get does")
	}
}

//verif:run C24 n=0..5 quick
//verif:run C24 n=6..7 thorough budget=600
func hC24GetDoc(n int) {
	s := vStr(n)
	paths := []string{"a", "a.@b", "*", "a.b", "a"}
	rs := xmldot.GetMany(s, paths...)
	for i, p := range paths {
		vAssert(shown(rs[i]) == shown(xmldot.Get(s, p)), "GetMany answers each path as Get does")
	}
}
