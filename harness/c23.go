package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// keyOf is the key under which a child is listed.
func keyOf(n *rnode) string {
	if refFold {
		return lower(n.name)
	}
	return n.name
}

// checkMap compares a map with the children of n; n == nil means no children.
func checkMap(s string, n *rnode, m map[string]xmldot.Result) {
	if n == nil {
		vAssert(len(m) == 0, "other results have an empty map")
		return
	}
	keys := 0
	for i, c := range n.kids {
		first := true
		for _, o := range n.kids[:i] {
			if keyOf(o) == keyOf(c) {
				first = false
			}
		}
		if !first {
			continue
		}
		keys++
		var like []rval
		for _, o := range n.kids[i:] {
			if keyOf(o) == keyOf(c) {
				like = append(like, elemVal(s, o))
			}
		}
		v, ok := m[keyOf(c)]
		vAssert(ok && same(v, pack(like)), "each child name lists its elements in document order")
	}
	t := strings.TrimSpace(spans(s, n.text))
	v, ok := m["%"]
	vAssert(ok == (t != ""), "the text key is there exactly when there is direct text")
	if ok {
		keys++
		vAssert(v.Type == xmldot.String && v.Str == refUnescape(t), "the text key holds the direct text")
	}
	vAssert(len(m) == keys, "there are no other keys")
	vObsInt(keys)
}

func doMap(r xmldot.Result) map[string]xmldot.Result {
	if refFold {
		return r.MapWithOptions(foldOptions())
	}
	return r.Map()
}

var c23Shapes = []string{
	"<r><a><{1}>{t}</{1}><{2} k='1'>2</{2}><{3}/></a></r>",
	"<r><a>{t}<{1}><{2}>x</{2}></{1}>{t}<{1}><{3}/></{1}></a><a><b>no</b></a></r>",
	"<r><a><!--<{1}>--><{2}>1</{2}><![CDATA[</a>]]><{3} k='>'>2</{3}><?x <b/>?></a></r>",
	"<r><a><{1} k=\"{v}\"/><{2} k='/>'/>{t}</a></r>",
	"<r><a>{t}</a></r>",
	"<a><{1}><{1}>1</{1}><{2}>2</{2}></{1}><{3}{s}>3</{3}{s}><{2}>4</{2}></a><b/>",
	"<r><a><p:{1}>1</p:{1}><{2}>2</{2}><p:{3} p:k='3'>3</p:{3}><q:{1}/></a></r>",
	"<r><a><{1}>1</{1}><{2}>2</{2}><{3}>3</{3}><{4}>4</{4}></a></r>",
}

func c23Run(names string, tlen, n int) {
	t := &tmpl{names: names, tlen: tlen}
	s := t.expand(c23Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r.a", "r", "a", "b"} {
		checkMap(s, refFind(d.roots, steps(p)), doMap(doGet(s, p)))
	}
	// an array stands for its first element
	all := doGet(s, "*")
	if all.Type == xmldot.Array || all.Type == xmldot.Element {
		checkMap(s, d.roots[0], doMap(all))
	}
}

//verif:run C23 n=0..7 quick
func hC23Shape(n int) { c23Run("bc", 1, n) }

//verif:run C23 n=0..7 thorough budget=300
func hC23ShapeDeep(n int) { c23Run("bc:D", 3, n) }

// Case-insensitive keys.
//
//verif:run C23 n=0..7 quick
func hC23Fold(n int) {
	refFold = true
	defer func() { refFold = false }()
	c23Run("bBcC", 0, n)
}

// Default options are the plain call.
//
//verif:run C23 quick
func hC23Default() {
	t := &tmpl{names: "bBc", tlen: 1}
	s := t.expand("<r>{t}<{1}>1</{1}><{2}>2</{2}></r>")
	d := refParse(s)
	vAssume(d.ok)
	r := xmldot.Get(s, "r")
	checkMap(s, d.roots[0], r.MapWithOptions(nil))
	checkMap(s, d.roots[0], r.MapWithOptions(&xmldot.Options{CaseSensitive: true}))
	checkMap(s, d.roots[0], r.MapWithOptions(&xmldot.Options{CaseSensitive: true, Indent: " ", PreserveWhitespace: true}))
}

// Any content of n bytes.
//
//verif:run C23 n=0..4 quick
//verif:run C23 n=5..6 thorough budget=600
func hC23Content(n int) {
	s := "<r>" + vStr(n) + "</r>"
	d := refParse(s)
	vAssume(d.ok)
	checkMap(s, refFind(d.roots, steps("r")), xmldot.Get(s, "r").Map())
}

// Results that are not elements have an empty map.
//
//verif:run C23 quick
func hC23Other() {
	v := vStr(2)
	vAssume(v[0] != '<' && v[1] != '<' && v[0] != '"' && v[1] != '"')
	s := "<r><a k=\"" + v + "\">" + v + "<b>1</b></a><a><b>2</b></a></r>"
	for _, p := range []string{"r.a.@k", "r.a.%", "r.a.#", "r.z", "r.a.#.@k", "r.a.#.z"} {
		x := xmldot.Get(s, p)
		vAssert(x.Map() != nil && len(x.Map()) == 0 && len(x.MapWithOptions(foldOptions())) == 0, "other results have an empty map")
	}
	all := xmldot.Get(s, "r.*")
	checkMap(s, refFind(refParse(s).roots, steps("r.a")), all.Map())
}

// Up to 1000 children are listed.
//
//verif:run C23 n=998..1002 quick steps=200000000
func hC23Many(n int) {
	last := string([]byte{vByteIn("cd")})
	s := "<r>" + strings.Repeat("<c/>", n-1) + "<" + last + ">x</" + last + "></r>"
	m := xmldot.Get(s, "r").Map()
	c := len(m["c"].Results)
	if n <= 1000 {
		if last == "c" {
			vAssert(c == n && len(m) == 1 && m["c"].Results[n-1].Str == "x", "up to 1000 children are listed")
		} else {
			vAssert(c == n-1 && m["d"].Str == "x" && len(m) == 2, "up to 1000 children are listed")
		}
	} else {
		vAssert(c == 1000 && len(m) == 1, "1000 children are listed")
	}
}
