package main

import "github.com/netascode/xmldot"

var c08Paths = []string{"r.a", "a", "r.b", "a.b", "r.a.b", "r.a.1", "r.a.0.b", "r.a.0", "r.b.1", "r", "r.a.b.a", "c", "r.c.d", "r.p:a", "r.a.@b", "a.@a", "r.a.5"}

//verif:run C08 n=0..9 quick
func hC08Shape(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	c08Shape(t.expand(c07Shapes[n]))
}

//verif:run C08 n=0..9 thorough budget=200
func hC08ShapeDeep(n int) {
	t := &tmpl{names: "abr", tlen: 3}
	c08Shape(t.expand(c07Shapes[n]))
}

var c08More = []string{
	"<r><{1}>1</{1}><{2}>2</{2}><{3}>3</{3}><{4}>4</{4}></r>",
	"<{1}/><{2}>{t}</{2}><{3} {1}='<{2}/>'/>",
	"<r><{1}>{t}<{2}/></{1}>{t}<{1}><{2}>{t}</{2}>{t}</{1}></r>",
	"<r><{1}><![CDATA[</{1}>]]></{1}><!--</r>--><{2}>x</{2}></r>",
	"<r><{1}><?x </{1}>?></{1}{s}>\n<{2}{s}></{2}{s}></r>",
	"<r><{1} {2}='</{1}>'>x</{1}><{2} {3}=\"/>\"/></r>",
}

//verif:run C08 n=0..5 quick
func hC08More(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	c08Shape(t.expand(c08More[n]))
}

//verif:run C08 n=0..5 thorough budget=200
func hC08MoreDeep(n int) {
	t := &tmpl{names: "abr", tlen: 3}
	c08Shape(t.expand(c08More[n]))
}

func c08Shape(s string) {
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c08Paths {
		checkDelete(s, d, p)
	}
	// like-named siblings: the count drops by one and later ones shift down
	n := xmldot.Get(s, "r.a.#").Int()
	if n > 1 {
		out, err := xmldot.Delete(s, "r.a.0")
		vAssert(err == nil && xmldot.Get(out, "r.a.#").Int() == n-1, "the count drops by one")
		x, y := xmldot.Get(s, "r.a.1"), xmldot.Get(out, "r.a.0")
		vAssert(x.Raw == y.Raw && x.Str == y.Str, "later siblings shift down")
		nul, err := xmldot.Set(s, "r.a.0", nil)
		vAssert(err == nil && nul == out, "Set to nil is Delete")
	}
}

//verif:run C08 n=4..7 quick
//verif:run C08 n=8..9 thorough budget=200
func hC08Full(n int) {
	s := vStr(n)
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"a", "a.b", "a.0", "a.@b", "b:a"} {
		checkDelete(s, d, p)
	}
}

//verif:run C08 n=1..5 quick
//verif:run C08 n=6..7 thorough budget=200
func hC08Content(n int) {
	x := vStr(n)
	for _, s := range []string{"<r>" + x + "<a>1</a></r>", "<r><a>" + x + "</a><b/></r>", "<r><a" + x + ">1</a></r>"} {
		d := refParse(s)
		if !d.ok {
			continue
		}
		for _, p := range []string{"r.a", "r.b", "r.a.b", "r"} {
			checkDelete(s, d, p)
		}
	}
}
