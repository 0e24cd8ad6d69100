package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

var c06Docs = []string{"<r><a k='1'>x</a><b/></r>", "<r/>", "", "<a/><b>t</b>", "<r><!--c--><a><![CDATA[x]]></a></r>"}

// keepsValid performs a write with a symbolic path and checks the result.
func keepsValid(s, path, v string) {
	out, err := xmldot.Set(s, path, v)
	verdict(s, path, out, err)
	if s != "" {
		out, err = xmldot.Delete(s, path)
		verdict(s, path, out, err)
	}
}

func verdict(s, path, out string, err error) {
	if err != nil {
		vAssert(out == s, "a failed write returns its input")
		vAssert(sentinel(err) == xmldot.ErrInvalidPath, "the path is what was wrong")
		vObs("refused")
		return
	}
	if r := refParse(out + "<z/>"); r.ok && len(r.roots) == 1 {
		vAssert(len(refParse(s).roots) == 1, "only deleting the last root leaves no element")
		vObs("no element left")
		return
	}
	if !refParse(out).ok {
		// names with a bracket are written although XML does not allow them
		if strings.Contains(path, "[") && strings.Contains(out, "[") && !strings.Contains(s, "[") {
			vFinding("bracket-name")
		}
		vAssert(false, "a successful write gives a valid document")
	}
	vAssert(xmldot.Valid(out), "Valid accepts the written document")
	vObs(out)
}

// Paths of n arbitrary bytes.
//
//verif:run C06 n=1..3 quick
//verif:run C06 n=4..4 thorough budget=600
func hC06Path(n int) {
	p := vStr(n)
	for _, s := range c06Docs {
		keepsValid(s, p, "v")
	}
}

// Paths with n arbitrary bytes inside.
//
//verif:run C06 n=1..3 quick
//verif:run C06 n=4..4 thorough budget=600
func hC06Inner(n int) {
	p := vStr(n)
	keepsValid("<r><a k='1'>x</a><b/></r>", "r."+p, "v")
	keepsValid("<r><a k='1'>x</a><b/></r>", "r.a"+p, "v")
	keepsValid("<r/>", "r."+p+".c", "v")
}

// Values of n arbitrary bytes as text and attribute.
//
//verif:run C06 n=1..3 quick
//verif:run C06 n=4..5 thorough budget=200
func hC06Value(n int) {
	v := vStr(n)
	for _, p := range []string{"r.a", "r.b", "r.a.@k", "r.n.@k", "r.a.-1", "n", "r.n.m"} {
		out, err := xmldot.Set("<r><a k='1'>x</a><b/></r>", p, v)
		vAssert(err == nil, "Set succeeds")
		verdict("", p, out, err)
	}
}

var c06Paths = []string{"r.a", "a", "r.b", "a.b", "r.a.1", "r.a.-1", "r.@a", "r.a.@b", "r.*", "r.**", "r.*.b", "r.#", "r.a.#", "r.%", "*", "r.a.#(b)", "r.a|@first", "r.#.a"}

//verif:run C06 n=0..9 quick
func hC06Shape(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	c06Shape(t.expand(c07Shapes[n]))
}

//verif:run C06 n=0..9 thorough budget=200
func hC06ShapeDeep(n int) {
	t := &tmpl{names: "abr", tlen: 3}
	c06Shape(t.expand(c07Shapes[n]))
}

func c06Shape(s string) {
	vAssume(refParse(s).ok)
	for _, p := range c06Paths {
		keepsValid(s, p, "v<&")
	}
}

//verif:run C06 n=4..7 quick
//verif:run C06 n=8..9 thorough budget=200
func hC06Full(n int) {
	s := vStr(n)
	vAssume(refParse(s).ok)
	for _, p := range []string{"a", "a.b", "a.@b", "a.0", "*", "a.-1"} {
		keepsValid(s, p, "v")
	}
}

// Numbers and booleans.
//
//verif:run C06 quick
func hC06Typed() {
	s := c06Docs[vChoice(3)]
	p := []string{"r.a", "r.a.@k", "r.a.-1", "r.z.y"}[vChoice(4)]
	var v any
	switch vChoice(5) {
	case 0:
		v = int(vByte()) - 128
	case 1:
		v = []int64{0, -1 << 63, 1<<63 - 1}[vChoice(3)]
	case 2:
		v = []float64{0, -1.5, 1e300, 1e-9}[vChoice(4)]
	case 3:
		v = []float32{0.1, -2, 1e30}[vChoice(3)]
	default:
		v = vBool()
	}
	out, err := xmldot.Set(s, p, v)
	vAssert(err == nil, "Set succeeds")
	verdict(s, p, out, err)
}
