package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

var c04Cases = [][2]string{
	{"<r><a>x</a></r>", "r.a"},
	{"<r><a/></r>", "r.a"},
	{"<r><a k='1'/><b/></r>", "r.a"},
	{"<r></r>", "r.a.b"},
	{"<r/>", "r.a"},
	{"", "r.a"},
	{"<r><a>1</a><a>2</a><a/></r>", "r.a.1"},
	{"<r><a>1</a><a>2</a><a/></r>", "r.a.2"},
	{"<r><a>1</a><a>2</a></r>", "r.a.1.b"},
	{"<s>1</s>", "r"},
	{"<r><p:a>q</p:a></r>", "r.a"},
}

// Set of every text of up to n bytes on existing, self-closing, indexed and
// missing targets, read back with Get.
//
//verif:run C04 n=0..10 quick
func hC04Text(n int) {
	c := c04Cases[n]
	k := 2
	if vThorough() {
		k = 3
	}
	setGet(c[0], c[1], vStr(k))
}

//verif:run C04 n=0..3 quick
//verif:run C04 n=4..5 thorough budget=200
func hC04Long(n int) {
	setGet("<r><a>x</a></r>", "r.a", vStr(n))
}

// Texts that look like entities or markup.
//
//verif:run C04 n=1..3 quick
//verif:run C04 n=4..5 thorough budget=200
func hC04Markup(n int) {
	setGet("<r><a/><b>1</b></r>", "r.a", "&"+vStrIn(n, "&;<>/ab\"'altgmp#]! ")+";")
}

func setGet(s, p, v string) {
	out, err := xmldot.Set(s, p, v)
	vAssert(err == nil, "Set succeeds")
	g := xmldot.Get(out, p)
	want := strings.TrimSpace(v)
	vAssert(g.Type == xmldot.Element, "the written element exists")
	vAssert(g.Str == want, "Get after Set returns the text")
	vAssert(!strings.Contains(g.Raw, "<"), "the value introduces no markup")
	d, before := refParse(out), refParse(s)
	vAssert(d.ok, "the document stays well formed")
	vAssert(count(d.roots) == count(before.roots)+missing(before, steps(p)), "the value introduces no elements")
	vObs(out)
}

func count(l []*rnode) int {
	k := 0
	for _, n := range l {
		k += 1 + count(n.kids)
	}
	return k
}

// missing counts the elements Set has to create for an element path.
func missing(d *rdoc, segs []rseg) int {
	k := 0
	for i := len(segs); i >= 1; i-- {
		if refFind(d.roots, segs[:i]) != nil {
			break
		}
		if segs[i-1].k == 'e' {
			k++
		}
	}
	return k
}

// Numbers and booleans read back as the same value.
//
//verif:run C04 quick
func hC04Int() {
	b := vByte()
	i := int(b) - 100
	for _, p := range []string{"r.a", "r.n", "r.@n"} {
		out, err := xmldot.Set("<r><a>x</a></r>", p, i)
		vAssert(err == nil, "Set of an int succeeds")
		vAssert(xmldot.Get(out, p).Int() == int64(i), "an int reads back")
		out, err = xmldot.Set("<r><a>x</a></r>", p, int64(i)*1000000007)
		vAssert(err == nil, "Set of an int64 succeeds")
		vAssert(xmldot.Get(out, p).Int() == int64(i)*1000000007, "an int64 reads back")
	}
	vObsInt(i)
}

//verif:run C04 quick
func hC04Extreme() {
	v := []int64{0, -1, 9223372036854775807, -9223372036854775808, 1 << 53, -(1 << 53) - 1}[vChoice(6)]
	out, err := xmldot.Set("<r/>", "r.n", v)
	vAssert(err == nil && xmldot.Get(out, "r.n").Int() == v, "extreme int64 values read back")
	out, err = xmldot.Set("<r/>", "r.n", int(v))
	vAssert(err == nil && xmldot.Get(out, "r.n").Int() == v, "extreme int values read back")
}

//verif:run C04 quick
func hC04Bool() {
	b := vBool()
	for _, p := range []string{"r.a", "r.n", "r.@n"} {
		out, err := xmldot.Set("<r><a>x</a></r>", p, b)
		vAssert(err == nil, "Set of a bool succeeds")
		vAssert(xmldot.Get(out, p).Bool() == b, "a bool reads back")
		want := "false"
		if b {
			want = "true"
		}
		vAssert(xmldot.Get(out, p).String() == want, "a bool reads back as its word")
	}
}

//verif:run C04 quick
func hC04Float() {
	f := []float64{0, 1.5, -2.25, 1e21, 1e-7, 123456789.125, 0.1, 5e-324, 1.7976931348623157e308}[vChoice(9)]
	out, err := xmldot.Set("<r/>", "r.n", f)
	vAssert(err == nil && xmldot.Get(out, "r.n").Float() == f, "a float64 reads back")
	g := []float32{0, 1.5, -2.25, 0.1, 16777216}[vChoice(5)]
	out, err = xmldot.Set("<r/>", "r.n", g)
	vAssert(err == nil && float32(xmldot.Get(out, "r.n").Float()) == g, "a float32 reads back")
}
