package main

import "github.com/netascode/xmldot"

// Values of n arbitrary bytes on existing, missing, first and last attributes.
var c05Cases = [][3]string{
	{"<r><a k=\"1\" m='2'>x</a></r>", "r.a", "k"},
	{"<r><a m='&lt;\"'>x</a></r>", "r.a", "k"},
	{"<r><a/></r>", "r.a", "k"},
	{"<r><a\n z = 'q' k='&amp;amp;'  /><a k='2'/></r>", "r.a", "k"},
	{"<r><a k='1'/><a k='2'/></r>", "r.a.1", "k"},
	{"<r/>", "r.a", "k"},
	{"<r/>", "r.a.b", "p:k"},
	{"", "r", "k"},
	{"<x/>", "r.a", "k"},
	{"<r><p:a p:k='1' k='2'/></r>", "r.a", "p:k"},
}

//verif:run C05 n=0..9 quick
func hC05Value(n int) {
	c := c05Cases[n]
	k := 2
	if vThorough() {
		k = 3
	}
	s := c[0]
	d := refParse(s)
	checkSetAttr(s, d, c[1], c[2], vStr(k))
}

//verif:run C05 n=0..3 quick
//verif:run C05 n=4..5 thorough budget=200
func hC05Long(n int) {
	s := "<r><a k='v' m=\"w\"/></r>"
	checkSetAttr(s, refParse(s), "r.a", "k", vStr(n))
}

// Other attributes with n arbitrary bytes of value survive a write and a delete.
//
//verif:run C05 n=0..4 quick
//verif:run C05 n=5..6 thorough budget=200
func hC05Others(n int) {
	x := vStr(n)
	s := "<r><a k='" + x + "' m=\"1\">t</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	checkSetAttr(s, d, "r.a", "m", "V")
	checkSetAttr(s, d, "r.a", "k", "V")
	checkSetAttr(s, d, "r.a", "new", "V")
	checkDelete(s, d, "r.a.@m")
	checkDelete(s, d, "r.a.@k")
	checkDelete(s, d, "r.a.@none")
}

// The whole inside of a tag is arbitrary.
//
//verif:run C05 n=1..6 quick
//verif:run C05 n=7..9 thorough budget=200
func hC05Tag(n int) {
	s := "<r><a" + vStr(n) + "></r>"
	if vBool() {
		s = s[:len(s)-4] + "</a></r>"
	}
	d := refParse(s)
	vAssume(d.ok)
	checkSetAttr(s, d, "r.a", "k", "V")
	checkDelete(s, d, "r.a.@k")
}

var c05Shapes = []string{
	"<r><{1} {2}=\"{v}\" {3}='{q}'>{t}</{1}></r>",
	"<r><{1}{s}{2}{s}={s}'1'{s}/></r>",
	"<r><{1} {2}='1'/><{1} {3}='2'>x</{1}></r>",
	"<r><{1}><{2} {3}='1'/></{1}><{1}><{2} {4}='2'/></{1}></r>",
	"<{1} {2}='1'><{1} {2}='2'/></{1}>",
	"<r><!-- <{1} {2}='1'> --><{1} {2}='2'/></r>",
	"<r {1}='1'><p:{2} p:{1}='2' {1}='3'/></r>",
}

var c05Paths = [][2]string{{"r.a", "a"}, {"r.a", "b"}, {"r.a.a", "b"}, {"r.a.b", "a"}, {"r.b.1", "a"}, {"a", "a"}, {"r", "b"}, {"r.a", "p:a"}}

//verif:run C05 n=0..6 quick
func hC05Shape(n int) {
	c05Shape(n, "ab", 1)
}

//verif:run C05 n=0..6 thorough budget=200
func hC05ShapeDeep(n int) {
	c05Shape(n, "abr", 3)
}

func c05Shape(n int, names string, tlen int) {
	t := &tmpl{names: names, tlen: tlen}
	s := t.expand(c05Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c05Paths {
		checkSetAttr(s, d, p[0], p[1], "V\"<")
		checkDelete(s, d, p[0]+".@"+p[1])
	}
}

// Attribute names of n bytes.
//
//verif:run C05 n=1..2 quick
//verif:run C05 n=3..3 thorough budget=200
func hC05Name(n int) {
	name := vStr(n)
	for i := 0; i < n; i++ {
		vAssume(name[i] != '.' && name[i] != '\\' && name[i] != '|' && name[i] != '#' && name[i] != '@')
	}
	s := "<r><a b='1'/></r>"
	out, err := xmldot.Set(s, "r.a.@"+name, "v")
	if !validName(name) {
		vAssert(err != nil && out == s, "an attribute name XML does not allow is refused")
		return
	}
	vAssert(err == nil, "a legal attribute name is accepted")
	vAssert(retagged(s, refParse(s).roots[0].kids[0], out, name, "v", false), "exactly that attribute is set")
}
