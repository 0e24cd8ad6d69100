package main

import "github.com/netascode/xmldot"

// sameOrEmpty compares, taking an empty list for nothing.
func sameOrEmpty(r xmldot.Result, v rval) bool {
	if v.k == 0 || v.k == 'L' && len(v.list) == 0 {
		return r.Type == xmldot.Null || r.Type == xmldot.Array && len(r.Results) == 0
	}
	return same(r, v)
}

// checkChain compares Get(p).Get(q) with the reading of q inside the element p
// addresses, and with Get(p.q) where that reads the same element.
func checkChain(s string, d *rdoc, p, q string) {
	r := doGet(s, p)
	n := refFind(d.roots, steps(p))
	if n == nil {
		vAssert(!r.Exists() && !doChain(r, q).Exists(), "nothing is found in nothing")
		return
	}
	vAssert(r.Type == xmldot.Element && r.Raw == n.raw(s), "Get "+p+" finds its element")
	want := refGet(s, n.kids, steps(q))
	got := doChain(r, q)
	vAssert(sameOrEmpty(got, want), "Get("+p+").Get("+q+") reads inside the element")
	full := refGet(s, d.roots, steps(p+"."+q))
	direct := doGet(s, p+"."+q)
	vAssert(sameOrEmpty(direct, full), "Get "+p+"."+q+" equals the reading of the document tree")
	if want.k != 0 && want.k != 'N' {
		vAssert(shownOrEmpty(got) == shownOrEmpty(direct), "chaining equals the full path")
	}
	many := r.GetMany(q, "zz", q)
	vAssert(len(many) == 3 && shown(many[0]) == shown(r.Get(q)) && shown(many[2]) == shown(r.Get(q)) && shown(many[1]) == shown(r.Get("zz")), "GetMany equals Get call by call")
	vAssert(shown(r.GetWithOptions(q, nil)) == shown(r.Get(q)) && shown(r.GetWithOptions(q, &xmldot.Options{CaseSensitive: true})) == shown(r.Get(q)), "default options change nothing")
	obsVal(want)
}

func doChain(r xmldot.Result, q string) xmldot.Result {
	if refFold {
		return r.GetWithOptions(q, foldOptions())
	}
	return r.Get(q)
}

func shownOrEmpty(r xmldot.Result) string {
	if r.Type == xmldot.Array && len(r.Results) == 0 {
		return "nothing"
	}
	if r.Type == xmldot.Null {
		return "nothing"
	}
	return shown(r)
}

var c22Shapes = []string{
	"<r><a><{1}>{t}</{1}><{2} k='1'>2</{2}></a></r>",
	"<r><a>{t}<{1}><{2}>x</{2}></{1}>{t}<{1}><{3}/></{1}></a><a><b>no</b></a></r>",
	"<r><a><!--<{1}>--><{2}>1</{2}><![CDATA[</a>]]><{3} k='>'>2</{3}></a></r>",
	"<r><a><{1}/></a></r>",
	"<r><a><{1} k=\"{v}\"/><{2} k='/>'/>{t}</a></r>",
	"<r><a>{t}</a></r>",
	"<a><{1}><{1}>1</{1}><{2}>2</{2}></{1}></a><b/>",
	"<r><a><p:{1}>1</p:{1}><{2}>2</{2}><p:{3} p:k='3'>3</p:{3}></a></r>",
}

var c22Next = []string{"b", "b.@k", "b.%", "b.#", "b.1", "b.0.c", "b.#.c", "b.#.%", "b.#.@k", "*", "**.b", "b.b", "b.c", "*.@k", "b.1.%", "p:b", "*.%"}

//verif:run C22 n=0..7 quick steps=20000000
func hC22Shape(n int) {
	t := &tmpl{names: "bc", tlen: 1}
	if n == 1 {
		t.tlen = 0
	}
	s := t.expand(c22Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	p := []string{"r.a", "r", "a", "r.a.0", "r.a.1"}[vChoice(5)]
	for _, q := range c22Next {
		checkChain(s, d, p, q)
	}
}

//verif:run C22 n=0..7 thorough budget=300 steps=20000000
func hC22ShapeDeep(n int) {
	t := &tmpl{names: "abc:", tlen: 3}
	s := t.expand(c22Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	p := []string{"r.a", "r", "a"}[vChoice(3)]
	for _, q := range c22Next {
		checkChain(s, d, p, q)
	}
}

// Case-insensitive chaining.
//
//verif:run C22 n=0..7 quick
func hC22Fold(n int) {
	refFold = true
	defer func() { refFold = false }()
	t := &tmpl{names: "bBC", tlen: 0}
	s := t.expand(c22Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	for _, q := range []string{"b", "B.@K", "b.#", "b.1", "B.#.c", "*", "**.b", "b.c"} {
		for _, p := range []string{"r.A", "a"} {
			r := doGet(s, p)
			x := refFind(d.roots, steps(p))
			if x == nil {
				vAssert(!r.Exists(), "nothing is found")
				continue
			}
			vAssert(sameOrEmpty(doChain(r, q), refGet(s, x.kids, steps(q))), "case-insensitive "+p+" then "+q+" reads inside the element")
		}
	}
}

// Any content of n bytes.
//
//verif:run C22 n=0..4 quick
//verif:run C22 n=5..6 thorough budget=600
func hC22Content(n int) {
	s := "<r>" + vStr(n) + "</r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, q := range []string{"b", "b.@c", "b.%", "b.#", "b.1", "*"} {
		checkChain(s, d, "r", q)
	}
}

// Filters inside a chained query.
//
//verif:run C22 quick
func hC22Filter() {
	v := vStrIn(3, "123")
	s := "<r><a>" + "<b k='" + v[:1] + "'><c>" + v[1:2] + "</c></b><b k='" + v[2:] + "'><c>9</c></b></a></r>"
	for _, q := range []string{"b.#(@k==2)", "b.#(@k>1)#", "b.#(c<3)#.c", "b.#(@k!=1).@k", "b.#(c)#.@k", "b.#(@k==1)#.#.c"} {
		a := xmldot.Get(s, "r.a").Get(q)
		b := xmldot.Get(s, "r.a."+q)
		vAssert(shownOrEmpty(a) == shownOrEmpty(b), "chaining "+q+" equals the full path")
		vObs(shown(a))
	}
}

// Modifiers inside a chained query.
//
//verif:run C22 quick
func hC22Modifier() {
	v := vStrIn(3, "123")
	s := "<r><a><b>" + v[:1] + "</b><b>" + v[1:2] + "</b></a><a><b>" + v[2:] + "</b></a></r>"
	for _, q := range []string{"b|@reverse", "*|@sort", "b.#.%|@reverse", "*|@first", "*|@last", "*|@sort|@last", "b.#(%>0)#|@reverse"} {
		a := xmldot.Get(s, "r.a").Get(q)
		b := xmldot.Get(s, "r.a."+q)
		vAssert(shownOrEmpty(a) == shownOrEmpty(b), "chaining "+q+" equals the full path")
		vObs(shown(a))
	}
}

// Results that are not elements.
//
//verif:run C22 quick
func hC22Other() {
	v := vStr(2)
	vAssume(v[0] != '<' && v[1] != '<' && v[0] != '"' && v[1] != '"')
	s := "<r><a k=\"" + v + "\">" + v + "<b>1</b></a><a><b>2</b></a></r>"
	q := []string{"b", "%", "@k", "*", "", "b.#", "**.b", "0"}[vChoice(8)]
	for _, p := range []string{"r.a.@k", "r.a.%", "r.a.#", "r.z", "r.a.#.@k"} {
		x := xmldot.Get(s, p)
		vAssert(!x.Get(q).Exists() && !x.GetWithOptions(q, foldOptions()).Exists(), "results without content have no parts")
		for _, y := range x.GetMany(q, q) {
			vAssert(!y.Exists(), "results without content have no parts")
		}
	}
	all := xmldot.Get(s, "r.*")
	vAssert(all.IsArray() && len(all.Results) == 2, "two elements")
	vAssert(shown(all.Get(q)) == shown(all.Results[0].Get(q)), "an array is queried through its first element")
	vAssert(shown(all.GetWithOptions(q, foldOptions())) == shown(all.Results[0].GetWithOptions(q, foldOptions())), "an array is queried through its first element")
	none := xmldot.Get(s, "r.a.#.z")
	vAssert(!none.Get(q).Exists() && !none.GetWithOptions(q, foldOptions()).Exists(), "an empty array has no parts")
}

// Longer chains.
//
//verif:run C22 quick
func hC22Long() {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand("<r><{1}><{2}><{3} k='{q}'>{t}</{3}></{2}></{1}></r>")
	d := refParse(s)
	vAssume(d.ok)
	r := xmldot.Get(s, "r").Get("a").Get("b").Get("a")
	vAssert(same(r, refGet(s, d.roots, steps("r.a.b.a"))), "a chain of four equals the full path")
	r = xmldot.Get(s, "r").Get("a.b").Get("a.@k")
	if refFind(d.roots, steps("r.a.b")) != nil {
		vAssert(!r.Exists() || same(r, refGet(s, d.roots, steps("r.a.b.a.@k"))), "a chain equals the full path")
	}
	vAssert(same(xmldot.Get(s, "r").Get("a.b.a.@k"), refGet(s, d.roots, steps("r.a.b.a.@k"))), "a chain equals the full path")
}
