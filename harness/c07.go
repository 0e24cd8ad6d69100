package main

import "github.com/netascode/xmldot"

var c07Shapes = []string{
	"<{1}>{t}<{2}>x</{2}>{t}</{1}>",
	"<r><{1}/><{2}>x</{2}></r>",
	"<r><{1}{s}{2}{s}={s}'1'{s}/><{2} {3}=\"a>b\"></{2}{s}></r>",
	"<r><!--{c}--><{1}>x</{1}><![CDATA[{d}]]></r>",
	"<r><{1}><{2}/></{1}><{1}><{3}>y</{3}></{1}></r>",
	"<{1}>1</{1}><{2}><{3}/></{2}>",
	"<?p {p}?><r>\n <{1} >x</{1}>\n</r>\n",
	"<r><p:{1}>1</p:{1}><{2}>2</{2}></r>",
	"<r><{1}><{1}>1</{1}></{1}><{2}>2</{2}></r>",
	"<r><{1}>{t}</{1}{s}><?{p}?><{2}{s}/></r>",
}

var c07Paths = []string{"r.a", "a", "r.b", "a.b", "r.a.b", "r.a.1", "r.a.0.b", "r.a.b.a", "c", "r.c.d", "r.p:a"}

//verif:run C07 n=0..9 quick
func hC07Shape(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand(c07Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c07Paths {
		checkSet(s, d, p, "V&<")
	}
}

//verif:run C07 n=0..9 thorough budget=200
func hC07ShapeDeep(n int) {
	t := &tmpl{names: "abr", tlen: 3}
	s := t.expand(c07Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	v := vStr(1)
	for _, p := range c07Paths {
		checkSet(s, d, p, v)
	}
}

// Every valid document of n bytes.
//
//verif:run C07 n=4..7 quick
//verif:run C07 n=8..9 thorough budget=200
func hC07Full(n int) {
	s := vStr(n)
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"a", "a.b", "a.0", "b.a"} {
		checkSet(s, d, p, "V")
	}
}

// Arbitrary content before and inside the target.
//
//verif:run C07 n=1..4 quick
//verif:run C07 n=5..6 thorough budget=200
func hC07Content(n int) {
	x := vStr(n)
	for _, s := range []string{"<r>" + x + "<a>1</a></r>", "<r><a>" + x + "</a><b/></r>", "<r><a" + x + ">1</a></r>"} {
		d := refParse(s)
		if !d.ok {
			continue
		}
		for _, p := range []string{"r.a", "r.b", "r.a.c"} {
			checkSet(s, d, p, "V")
		}
	}
}

// Setting never fails on what it can write, and never writes what it cannot.
//
//verif:run C07 n=1..3 quick
func hC07Name(n int) {
	name := vStrIn(n, "abAZ09_:-. <>/'\"=&é!")
	s := "<r><a/></r>"
	esc := ""
	for i := 0; i < n; i++ {
		esc += "\\" + name[i:i+1]
	}
	out, err := xmldot.Set(s, "r."+esc+".b", "v")
	if err != nil {
		vAssert(out == s, "a refused Set returns its input")
		return
	}
	d := refParse(out)
	vAssert(d.ok, "a successful Set writes a valid document")
}
