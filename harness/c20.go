package main

import "github.com/netascode/xmldot"

// Places where markup that is not an element may stand; X marks the place.
var c20Places = []string{
	"X<r><a k='1'>t</a></r>",
	"<r>X<a k='1'>t</a></r>",
	"<r><a k='1'>X</a></r>",
	"<r><a k='1'>t<c>X</c>u</a><a>v</a></r>",
	"<r><a k='1'/>X<a>t</a></r>",
	"<r><b>X</b><a><a>t</a>X</a></r>",
	"<r><a k='1'>t</a></r>X",
	"<b/>X<r><a>t</a></r>",
}

func fillIn(place, x string) string {
	out := ""
	for i := 0; i < len(place); i++ {
		if place[i] == 'X' {
			out += x
		} else {
			out += place[i : i+1]
		}
	}
	return out
}

// opaque wraps text in one of the constructs.
func opaque(kind int, text string) string {
	switch kind {
	case 0:
		return "<!--" + text + "-->"
	case 1:
		return "<![CDATA[" + text + "]]>"
	case 2:
		return "<?" + text + "?>"
	case 3:
		return "<!DOCTYPE r [" + text + "]>"
	}
	return "<!DOCTYPE" + text + ">"
}

var c20Reads = []string{"r.a", "r.a.%", "r", "r.%", "r.b", "r.a.@k", "a", "r.a.c", "**.a", "r.*", "r.a.#", "r.a.1", "r.a.#.%", "r.a.#.@k", "r.a.a"}

func c20Check(s string) {
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c20Reads {
		checkGet(s, d, p)
	}
	for _, p := range []string{"r.a", "r.b", "r.a.c", "r.a.1"} {
		checkSet(s, d, p, "V")
	}
	checkSetAttr(s, d, "r.a", "k", "V")
	for _, p := range []string{"r.a", "r.b", "r.a.@k", "r.a.1"} {
		checkDelete(s, d, p)
	}
}

// n symbolic bytes out of the ones that mean something, in every construct at
// every place.
//
//verif:run C20 n=1..5 quick
//verif:run C20 n=6..8 thorough budget=600
func hC20Bytes(n int) {
	x := opaque(vChoice(5), vStrIn(n, "<a/>'\"-]"))
	c20Check(fillIn(c20Places[vChoice(len(c20Places))], x))
}

// Text that looks like markup around n symbolic bytes.
//
//verif:run C20 n=0..2 quick
//verif:run C20 n=3..3 thorough budget=600
func hC20Lookalike(n int) {
	looks := []string{"<a>~</a>", "</a>~", "</r>~", "<a k='~2'/>", "<r><a>~", "<!--~", "<![CDATA[~", "<b ~", "'~\"", "<b k=\"~", "/>~</a></r>", "<?~", "k='2'~><a>"}
	l := looks[vChoice(len(looks))]
	text := ""
	for i := 0; i < len(l); i++ {
		if l[i] == '~' {
			text += vStr(n)
		} else {
			text += l[i : i+1]
		}
	}
	x := opaque(vChoice(5), text)
	c20Check(fillIn(c20Places[vChoice(len(c20Places))], x))
}

// Two constructs after each other, one holding the end of the other.
//
//verif:run C20 quick
func hC20Two() {
	ends := []string{"-->", "]]>", "?>", "]>", "-- >", "]] >"}
	k := vChoice(5)
	x := opaque(k, "<a>"+ends[vChoice(len(ends))]) + vStrIn(1, " x") + opaque(vChoice(5), "</r>")
	c20Check(fillIn(c20Places[1+vChoice(4)], x))
}

// DOCTYPE in every combination of letter case.
//
//verif:run C20 quick
func hC20Case() {
	w := ""
	for _, c := range []string{"dD", "oO", "cC", "tT", "yY", "pP", "eE"} {
		w += string([]byte{vByteIn(c)})
	}
	s := "<!" + w + " r [<!ENTITY a \"<a>e</a>\"><a>x</a>]><r><a k='1'>&a;</a><!" + w + " [></r>]></r>"
	d := refParse(s)
	vAssert(d.ok, "the reference skips a DOCTYPE in any letter case")
	vAssert(xmldot.Valid(s), "Valid skips a DOCTYPE in any letter case")
	for _, p := range []string{"r.a", "a", "r.a.@k", "**.a", "r"} {
		checkGet(s, d, p)
	}
	checkSet(s, d, "r.a", "V")
	checkSet(s, d, "r.b", "V")
	checkDelete(s, d, "r.a")
}

// The internal subset: n symbolic bytes with brackets and quotes.
//
//verif:run C20 n=1..6 quick
//verif:run C20 n=7..8 thorough budget=600
func hC20Subset(n int) {
	c20Check("<!DOCTYPE r" + vStrIn(n, " []<>a/") + "[<a>x</a>]><r><a k='1'>t</a></r>")
}

// Only the five entities are decoded, and only once.
//
//verif:run C20 n=1..5 quick
//verif:run C20 n=6..7 thorough budget=300
func hC20Entity(n int) {
	t := vStrIn(n, "&;ltgampqu#x3")
	s := "<r><a k=\"&" + t + "\">&" + t + ";</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r.a", "r.a.%", "r.a.@k", "r", "r.a.#.%", "**.a", "r.a.#.@k"} {
		checkGet(s, d, p)
	}
}

// Entity names written out, nested and declared.
//
//verif:run C20 quick
func hC20Nested() {
	names := []string{"lt", "gt", "amp", "quot", "apos", "#60", "#x3c", "nbsp", "x", "LT", "Amp", ""}
	a, b := names[vChoice(len(names))], names[vChoice(len(names))]
	c := vStrIn(1, "&;l")
	t := "&" + a + ";" + c + b + ";&amp;" + a + ";"
	s := "<!DOCTYPE r [<!ENTITY x \"evil\">]><r><a k='" + t + "'>" + t + "</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r.a", "r.a.%", "r.a.@k", "r"} {
		checkGet(s, d, p)
	}
}
