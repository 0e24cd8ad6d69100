package main

import "github.com/netascode/xmldot"

func clobber(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

// readsAgree performs every kind of query on the same content and checks that they
// agree, leave their arguments alone and do not share memory with them.
func readsAgree(s, p string) {
	want := shown(xmldot.Get(s, p))
	vAssert(shown(xmldot.GetString(s, p)) == want, "GetString agrees with Get")
	b := []byte(s)
	r := xmldot.GetBytes(b, p)
	vAssert(shown(r) == want, "GetBytes agrees with Get")
	vAssert(string(b) == s, "GetBytes leaves the document alone")
	opts := xmldot.Options{CaseSensitive: true}
	ro := xmldot.GetBytesWithOptions(b, p, &opts)
	vAssert(shown(ro) == want && shown(xmldot.GetWithOptions(s, p, &opts)) == want && shown(xmldot.GetStringWithOptions(s, p, nil)) == want, "the forms with default options agree with Get")
	paths := []string{"r.a", p, "z"}
	many := xmldot.GetMany(s, paths...)
	vAssert(len(many) == 3 && shown(many[1]) == want, "GetMany agrees with Get")
	vAssert(paths[0] == "r.a" && paths[1] == p && paths[2] == "z", "GetMany leaves the paths alone")
	fold := xmldot.Options{CaseSensitive: false, Indent: "i", Namespaces: map[string]string{"p": "u"}}
	rf := xmldot.GetBytesWithOptions(b, p, &fold)
	fw := shown(rf)
	vAssert(fw == shown(xmldot.GetWithOptions(s, p, &fold)) && fw == shown(xmldot.GetStringWithOptions(s, p, &fold)), "the forms with options agree")
	vAssert(!fold.CaseSensitive && fold.Indent == "i" && len(fold.Namespaces) == 1 && fold.Namespaces["p"] == "u" && opts.CaseSensitive && opts.Indent == "", "queries leave the options alone")
	vAssert(string(b) == s, "queries leave the document alone")
	clobber(b)
	vAssert(shown(r) == want && shown(ro) == want && shown(rf) == fw, "results do not change when the document bytes are reused")
	vObs(want)
}

func writesAgree(s, p, v string) {
	want, werr := xmldot.Set(s, p, v)
	b := []byte(s)
	out, err := xmldot.SetBytes(b, p, v)
	vAssert(string(out) == want && errName(err) == errName(werr), "SetBytes agrees with Set")
	vAssert(string(b) == s, "SetBytes leaves the document alone")
	opts := xmldot.Options{CaseSensitive: true}
	o2, err := xmldot.SetWithOptions(s, p, v, &opts)
	vAssert(o2 == want && errName(err) == errName(werr), "SetWithOptions agrees with Set")
	o3, err := xmldot.SetBytesWithOptions(b, p, v, &opts)
	vAssert(string(o3) == want && errName(err) == errName(werr), "SetBytesWithOptions agrees with Set")
	vAssert(opts.CaseSensitive && opts.Indent == "" && string(b) == s, "Set leaves its arguments alone")
	paths, vals := []string{p}, []interface{}{v}
	o4, err := xmldot.SetMany(s, paths, vals)
	vAssert(o4 == want && errName(err) == errName(werr), "SetMany agrees with Set")
	o5, err := xmldot.SetManyBytes(b, paths, vals)
	vAssert(string(o5) == want && errName(err) == errName(werr), "SetManyBytes agrees with Set")
	vAssert(paths[0] == p && vals[0] == interface{}(v) && string(b) == s, "SetMany leaves its arguments alone")
	raw := []byte(v)
	o6, err := xmldot.SetBytes(b, p, raw)
	vAssert(string(raw) == v && string(b) == s, "Set leaves a byte value alone")
	if err == nil {
		keep := string(o6)
		clobber(raw)
		vAssert(string(o6) == keep, "written documents do not change when the value is reused")
	}
	if werr == nil {
		clobber(out)
		vAssert(string(b) == s && string(o3) == want && string(o5) == want, "written documents do not share memory")
		clobber(b)
		vAssert(string(o3) == want && string(o5) == want, "written documents do not change when the input is reused")
	}
	vObs(want)
}

func deletesAgree(s, p string) {
	want, werr := xmldot.Delete(s, p)
	b := []byte(s)
	out, err := xmldot.DeleteBytes(b, p)
	vAssert(string(out) == want && errName(err) == errName(werr), "DeleteBytes agrees with Delete")
	opts := xmldot.Options{CaseSensitive: true}
	o2, err := xmldot.DeleteBytesWithOptions(b, p, &opts)
	vAssert(string(o2) == want && errName(err) == errName(werr), "DeleteBytesWithOptions agrees with Delete")
	paths := []string{p}
	o3, err := xmldot.DeleteMany(s, paths...)
	vAssert(o3 == want && errName(err) == errName(werr), "DeleteMany agrees with Delete")
	o4, err := xmldot.DeleteManyBytes(b, paths...)
	vAssert(string(o4) == want && errName(err) == errName(werr), "DeleteManyBytes agrees with Delete")
	o5, err := xmldot.Set(s, p, nil)
	if s != "" {
		vAssert(o5 == want && errName(err) == errName(werr), "Set of nil agrees with Delete")
	}
	vAssert(string(b) == s && paths[0] == p && opts.CaseSensitive, "Delete leaves its arguments alone")
	if werr == nil {
		clobber(out)
		vAssert(string(b) == s && string(o2) == want && string(o4) == want, "written documents do not share memory")
		clobber(b)
		vAssert(string(o2) == want && string(o4) == want, "written documents do not change when the input is reused")
	}
	vObs(want)
}

func validAgrees(s string) {
	ok := xmldot.Valid(s)
	b := []byte(s)
	vAssert(xmldot.ValidBytes(b) == ok, "ValidBytes agrees with Valid")
	e1, e2 := xmldot.ValidateWithError(s), xmldot.ValidateBytesWithError(b)
	vAssert((e1 == nil) == ok && (e2 == nil) == ok, "the validating forms agree with Valid")
	if e1 != nil && e2 != nil {
		vAssert(e1.Error() == e2.Error() && e1.Line == e2.Line && e1.Column == e2.Column, "the reported errors agree")
	}
	vAssert(string(b) == s, "validation leaves the document alone")
}

var c26Paths = []string{"r.a", "a", "a.@b", "*", "r.a.-1", "r.a.#", "**.a", "", "a.b.c", "r.a.1", "a|@first", "r.a.#(b==1)", "A.%", "r.a.#.@k"}

var c26Docs = []string{
	"<r><{1} k='{q}'>{t}</{1}><a/></r>",
	"<{1}>{t}<{2}/></{1}>",
	"<r><!--{c}--><{1}><b>1</b></{1}><a k=\"{v}\">{t}</a></r>",
	"<r><{1}>{t}",
	"<A><B>{t}</B></A>",
}

//verif:run C26 n=0..4 quick
func hC26Shape(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand(c26Docs[n])
	p := c26Paths[vChoice(len(c26Paths))]
	readsAgree(s, p)
	writesAgree(s, p, "v<")
	deletesAgree(s, p)
	validAgrees(s)
}

//verif:run C26 n=0..4 thorough budget=300
func hC26ShapeDeep(n int) {
	t := &tmpl{names: "abr", tlen: 2}
	s := t.expand(c26Docs[n])
	p := c26Paths[vChoice(len(c26Paths))]
	readsAgree(s, p)
	writesAgree(s, p, vStr(1))
	deletesAgree(s, p)
	validAgrees(s)
}

// Paths of n arbitrary bytes.
//
//verif:run C26 n=0..2 quick
//verif:run C26 n=3..3 thorough budget=600
func hC26Path(n int) {
	p := vStr(n)
	s := "<r><a k='1'>x</a><b/></r>"
	readsAgree(s, "r."+p)
	writesAgree(s, "r."+p, "v")
	deletesAgree(s, "r."+p)
	readsAgree(s, p)
	writesAgree(s, p, "v")
	deletesAgree(s, p)
}

// Documents of n arbitrary bytes.
//
//verif:run C26 n=0..5 quick
//verif:run C26 n=6..7 thorough budget=600
func hC26Doc(n int) {
	s := vStr(n)
	validAgrees(s)
	for _, p := range []string{"a", "a.@b"} {
		readsAgree(s, p)
		writesAgree(s, p, "v")
		deletesAgree(s, p)
	}
}

// Values of n arbitrary bytes.
//
//verif:run C26 n=0..3 quick
//verif:run C26 n=4..5 thorough budget=600
func hC26Value(n int) {
	p := []string{"r.a", "r.a.@k", "r.a.-1", "r.b", "r.n.m"}[vChoice(5)]
	writesAgree("<r><a k='1'>x</a><b/></r>", p, vStr(n))
}

// Results, lists and maps are independent of each other.
//
//verif:run C26 quick
func hC26Results() {
	v := vStrIn(3, "123")
	s := "<r><a>" + v[:1] + "</a><a>" + v[1:2] + "</a><a>" + v[2:] + "</a></r>"
	r := xmldot.Get(s, "r.*")
	before := shown(r)
	m := []string{"@reverse", "@sort", "@first", "@last", "@flatten"}[vChoice(5)]
	mod := xmldot.GetModifier(m[1:])
	vAssert(mod != nil, "built-in modifiers are registered")
	x := mod.Apply(r)
	vAssert(shown(r) == before, "a modifier leaves its argument alone")
	if len(x.Results) > 0 && m != "@flatten" {
		x.Results[0].Str = "changed"
		vAssert(shown(r) == before, "a modified result does not share its list with the source")
	}
	q := xmldot.Get(s, "r")
	mp := q.Map()
	if a := mp["a"]; len(a.Results) == 3 {
		a.Results[0].Str = "changed"
	}
	delete(mp, "a")
	vAssert(len(q.Map()["a"].Results) == 3 && q.Map()["a"].Results[0].Str == v[:1], "a map can be changed without affecting the next")
	vAssert(shown(xmldot.Get(s, "r.*")) == before, "queries do not share lists")
	d := xmldot.DefaultOptions()
	d.CaseSensitive = false
	d.Indent = "zz"
	vAssert(xmldot.DefaultOptions().CaseSensitive && xmldot.DefaultOptions().Indent != "zz", "default options are fresh")
	vAssert(!xmldot.Get("<A/>", "a").Exists(), "changed default options do not affect plain calls")
}
