package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// Large documents with a few symbolic bytes: many siblings, deep nesting, many
// attributes, long names, long texts and values, names that are parts of others.

type big struct {
	s     string
	d     *rdoc
	elems []string    // element paths, some of them missing
	attrs [][2]string // element path and attribute name
	reads []string    // other queries
}

func rep(s string, n int) string {
	out := ""
	for i := 0; i < n; i++ {
		out += s
	}
	return out
}

func pick(alphabet string) string { return string([]byte{vByteIn(alphabet)}) }

// bigPlain is set by harnesses that have their symbolic byte elsewhere.
var bigPlain bool

// bigDoc builds one kind of large document over the two names x and y.
func bigDoc(kind int, x, y string) *big {
	b := &big{}
	either := func() string {
		if bigPlain || vBool() {
			return x
		}
		return y
	}
	switch kind {
	case 0: // 40 children, some self-closing, three with a symbolic name
		s := "<r>"
		for i := 0; i < 40; i++ {
			n := x
			if i%7 == 3 {
				n = y
			}
			if i == 9 || i == 18 || i == 35 {
				n = either()
			}
			switch i % 4 {
			case 0:
				s += "<" + n + "/>"
			case 1:
				s += "<" + n + " k='" + itoa(i) + "'/>"
			case 2:
				s += "<" + n + " k=\"" + itoa(i) + "\"><c>" + itoa(i) + "</c></" + n + ">"
			default:
				s += "<" + n + ">" + itoa(i) + "</" + n + ">"
			}
		}
		b.s = s + "</r>"
		for _, i := range []int{2, 8, 9, 10, 15, 16, 17, 29, 30, 31, 32, 33, 34, 39, 64, 100} {
			b.elems = append(b.elems, "r."+x+"."+itoa(i))
		}
		b.elems = append(b.elems, "r."+y+".3", "r."+y+".7", "r."+x+".31.c", "r."+y, "r."+x+".33.z")
		for _, i := range []int{0, 7, 10, 16, 31, 33} {
			b.attrs = append(b.attrs, [2]string{"r." + x + "." + itoa(i), "k"})
		}
		b.reads = []string{"r.*", "r." + x + ".#", "r." + y + ".#", "r." + x + ".#.c", "r." + x + ".#.@k", "r." + x + ".#.%", "r.*.c", "**." + y, "r." + x + ".32.%", "r." + x + ".17.@k"}
	case 1: // 14 levels with a symbolic name at three of them
		s, e, p := "", "", ""
		for i := 0; i < 14; i++ {
			n := x
			if i == 5 || i == 8 || i == 11 {
				n = either()
			}
			s += "<" + n + " k='" + itoa(i) + "'>" + itoa(i)
			e = "<c/></" + n + ">" + e
			if i > 0 {
				p += "."
			}
			p += x
			if i == 3 || i == 4 || i == 8 || i >= 11 {
				b.elems = append(b.elems, p, p+".c", p+".z")
				b.attrs = append(b.attrs, [2]string{p, "k"})
				b.reads = append(b.reads, p+".%", p+".#", p+".*", p+".*.c")
			}
		}
		b.s = s + "<" + y + "/>" + e
		b.reads = append(b.reads, "**.c", "**."+y, "**."+x+".c", "**", "**.@k", "**.%", x+".**."+y)
	case 2: // 20 attributes, one with a symbolic name and one with a symbolic value
		s := "<r><" + x
		for i := 0; i < 20; i++ {
			v := itoa(i)
			if i == 17 {
				v += without(1, '"')
			}
			n := "k" + itoa(i)
			if i == 12 {
				n = "k" + either()
			}
			s += " " + n + "=\"" + v + "\""
		}
		b.s = s + "/><" + x + " k17='last'>t</" + x + "></r>"
		for _, n := range []string{"k0", "k1", "k9", "k11", "k" + x, "k16", "k17", "k19", "k20", "k"} {
			b.attrs = append(b.attrs, [2]string{"r." + x, n}, [2]string{"r." + x + ".1", n})
		}
		b.elems = []string{"r." + x, "r." + x + ".1", "r." + x + ".c"}
		b.reads = []string{"r." + x + ".#.@k17", "r.*.@k19", "**.@k17"}
	case 3: // names of 70 characters that differ in the last ones
		l := rep("n", 68)
		p, q := l+"1"+either(), l+"2"+either()
		b.s = "<r><" + p + " " + p + "='1'>a</" + p + "><" + q + " " + p + "='1' " + q + "='2'/><" + l + "><" + p + ">b</" + p + "></" + l + "></r>"
		b.elems = []string{"r." + l, "r." + l + "1" + x, "r." + l + "2" + x, "r." + l + "." + l + "1" + y, "r." + l + "2" + x + "." + l, "r." + l + "3" + x}
		b.attrs = [][2]string{{"r." + l + "1" + x, l + "1" + x}, {"r." + l + "2" + x, l + "1" + y}, {"r." + l + "2" + x, l + "2" + x}, {"r." + l, l}}
		b.reads = []string{"r.*", "**." + l + "1" + x, "r." + l + ".#." + l + "1" + x, "r.*.@" + l + "1" + x}
	case 4: // texts and values of 150 bytes around symbolic bytes, line ends included
		t := rep("0123456 ", 9)
		v, q := without(1, '<'), without(1, '"')
		b.s = "<r><" + x + " k=\"" + t + q + "\r\n" + t + "\" m='2'>" + t + v + "\r\n" + t + "</" + x + "><" + y + ">" + t + "<c>" + t + "</c>" + v + "</" + y + "></r>"
		b.elems = []string{"r." + x, "r." + y, "r." + y + ".c", "r." + y + ".d"}
		b.attrs = [][2]string{{"r." + x, "k"}, {"r." + x, "m"}, {"r." + x, "z"}}
		b.reads = []string{"r", "r.%", "r." + y + ".%", "r.*", "r.*.%", "r." + x + ".#.%", "r." + x + ".#.@k", "**.c"}
	case 5: // names that are beginnings of other names, also nested
		p := x + either()
		b.s = "<r><" + p + "><" + x + ">1</" + x + "><" + p + "/></" + p + "><" + x + "><" + p + ">2</" + p + "><" + x + "/></" + x + "><" + p + " " + x + "='1' " + p + "='2'/></r>"
		for _, n := range []string{x, x + x, x + y} {
			b.elems = append(b.elems, "r."+n, "r."+x+"."+n, "r."+x+x+"."+n, "r."+n+".1")
			b.attrs = append(b.attrs, [2]string{"r." + x + x + ".1", n}, [2]string{"r." + n, n})
			b.reads = append(b.reads, "**."+n, "r."+n+".#", "r.*."+n, "r."+x+x+".#.@"+n, "r."+x+".#."+n)
		}
	case 7: // 300 children, two with a symbolic name
		var sb strings.Builder
		for i := 0; i < 300; i++ {
			n := x
			if i%50 == 7 {
				n = y
			}
			if i == 130 || i == 262 {
				n = either()
			}
			switch i % 3 {
			case 0:
				sb.WriteString("<" + n + "/>")
			case 1:
				sb.WriteString("<" + n + " k='" + itoa(i) + "'/>")
			default:
				sb.WriteString("<" + n + ">" + itoa(i) + "</" + n + ">")
			}
		}
		b.s = "<r>" + sb.String() + "</r>"
		for _, i := range []int{64, 127, 128, 256, 261} {
			b.elems = append(b.elems, "r."+x+"."+itoa(i))
		}
		b.elems = append(b.elems, "r."+y+".5", "r."+y+".4")
		for _, i := range []int{64, 129, 256} {
			b.attrs = append(b.attrs, [2]string{"r." + x + "." + itoa(i), "k"})
		}
		b.reads = []string{"r.*", "r." + x + ".#", "r." + y + ".#", "r." + x + ".#.@k", "r." + x + ".#.%", "**." + y}
	case 8: // 70 levels with a symbolic name at two of them
		s, e, p := "", "", ""
		for i := 0; i < 70; i++ {
			n := x
			if i == 40 || i == 66 {
				n = either()
			}
			s += "<" + n + " k='" + itoa(i) + "'>"
			e = "</" + n + ">" + e
			if i > 0 {
				p += "."
			}
			p += x
			if i == 32 || i == 64 || i == 69 {
				b.elems = append(b.elems, p, p+".z")
				b.attrs = append(b.attrs, [2]string{p, "k"})
				b.reads = append(b.reads, p+".%", p+".#", p+".*")
			}
		}
		b.s = s + "<" + y + "/>" + e
		b.reads = append(b.reads, "**."+y, "**."+x+"."+y)
	case 9: // 90 attributes, one with a symbolic name
		s := "<r><" + x
		for i := 0; i < 90; i++ {
			n := "k" + itoa(i)
			if i == 70 {
				n = "k" + either()
			}
			s += " " + n + "=\"" + itoa(i) + "\""
		}
		b.s = s + "/><" + x + " k65='last'>t</" + x + "></r>"
		for _, n := range []string{"k31", "k" + x, "k63", "k65", "k89", "k90"} {
			b.attrs = append(b.attrs, [2]string{"r." + x, n})
		}
		b.elems = []string{"r." + x, "r." + x + ".1", "r." + x + ".c"}
		b.reads = []string{"r." + x + ".#.@k65", "r.*.@k89", "**.@k88"}
	case 10: // texts of 6000 bytes and names of 300 characters
		t := rep("0123456 &lt;\n", 150)
		v := without(1, '<')
		l := rep("n", 300)
		p := l + either()
		b.s = "<r><" + x + " k=\"" + t + v + t + "\" m='2'>" + t + v + t + t + "</" + x + "><" + p + " " + p + "='1'>" + t + "<c>" + t + "</c>" + v + "</" + p + "></r>"
		b.elems = []string{"r." + x, "r." + l + x, "r." + l + y + ".c", "r." + l + x + ".d"}
		b.attrs = [][2]string{{"r." + x, "k"}, {"r." + x, "m"}, {"r." + l + x, l + x}}
		b.reads = []string{"r", "r." + l + x + ".%", "r.*", "r." + x + ".#.%", "r." + x + ".#.@k", "**.c"}
	case 11: // a word of any kind in every place text can stand
		words := []string{"&lt;b&gt;1&lt;/b&gt;", "&lt;" + y + "/&gt;", "&amp;lt;", "&amp;amp;amp;", "&#60;b&#62;", "&quot;&apos;", "<!--<b>1</b>-->", "<![CDATA[<b>1</b>]]>",
			"<![CDATA[ &amp; ]]>", "<?b <b>?>", "\r\n", "\t \n", "é\u00a0", "\xff\x80", "]]&gt; -- ?", "&unknown; &", "/>", "= '\"", "x.y|@z #(1) *", "0012.50", "\x00"}
		w := words[vChoice(len(words))]
		v := w
		if w[0] == '<' {
			v = "<b>"
			v = "&lt;!--" + v[1:]
		}
		z := either()
		dq := strings.ReplaceAll(v, "\"", "'")
		sq := strings.ReplaceAll(v, "'", "\"")
		b.s = "<r>" + w + "<" + x + " k=\"" + dq + "\" m='" + sq + "'>" + w + "<" + y + ">" + w + "</" + y + ">" + w + "</" + x + ">" + w +
			"<" + z + " k='" + sq + "'> " + w + w + " </" + z + ">" + w + "<" + y + "/></r>"
		b.elems = []string{"r." + x, "r." + x + "." + y, "r." + x + ".1", "r." + x + ".z", "r." + y, "r.z"}
		b.attrs = [][2]string{{"r." + x, "k"}, {"r." + x, "m"}, {"r." + x + ".1", "k"}, {"r." + y, "k"}}
		b.reads = []string{"r", "r.%", "r.*", "r." + x + ".%", "r." + x + ".#.%", "r." + x + ".#.@k", "**." + y, "r." + x + ".*", "r." + x + ".#", "r.*.@k", "r.b", "r." + x + ".b", "**.b"}
	default: // tags with white space, self-closing and not, of four siblings
		w := func() string { return pick(" \t\r\n") }
		b.s = "<r ><" + x + " /><" + x + " k='1'" + w() + "/><" + x + w() + "/><" + y + " k=\"2\"" + w() + ">3</" + y + w() + "><" + x + "  k='1'  /></r >"
		for i := 0; i < 5; i++ {
			b.elems = append(b.elems, "r."+x+"."+itoa(i), "r."+x+"."+itoa(i)+".z")
			b.attrs = append(b.attrs, [2]string{"r." + x + "." + itoa(i), "k"}, [2]string{"r." + x + "." + itoa(i), "z"})
		}
		b.elems = append(b.elems, "r."+y, "r."+x, "r."+y+".z")
		b.attrs = append(b.attrs, [2]string{"r." + y, "k"}, [2]string{"r." + y, "z"})
		b.reads = []string{"r.*", "r." + x + ".#", "r." + x + ".#.@k", "**." + x}
	}
	b.d = refParse(b.s)
	vAssume(b.d.ok)
	return b
}

const bigValue = "0123456789 \"'&<>\r\n"

//verif:run C04 n=0..6 quick steps=40000000
//verif:run C04 n=11..11 quick steps=40000000
//verif:run C04 n=7..7 quick steps=800000000
//verif:run C04 n=9..9 quick steps=800000000
//verif:run C04 n=8..8 thorough steps=2000000000
//verif:run C04 n=10..10 thorough steps=2000000000
func hC04Big(n int) {
	b := bigDoc(n, "a", "b")
	long := rep(bigValue, 5) + vStr(1) + rep("z", 70)
	for _, p := range b.elems {
		// the count of elements is known when the target holds none
		if n := refFind(b.d.roots, steps(p)); creatable(b.d, steps(p)) && (n == nil || len(n.kids) == 0) {
			setGet(b.s, p, "v")
			setGet(b.s, p, long)
		}
	}
}

// Long values with symbolic bytes at the start, in the middle and at the end.
//
//verif:run C04 n=0..9 quick
//verif:run C05 n=0..9 quick
//verif:run C06 n=0..9 quick
func hC05BigValue(n int) {
	k := []int{3, 8, 15, 16, 31, 32, 63, 64, 127, 300}[n]
	c := []string{"x", "\"", "é"}[vChoice(3)]
	v := pick("x\"&<\r\n") + rep(c, k) + pick("x\"'&<>;\n ") + rep("y", k)
	setGet("<r><a/></r>", "r.a", v)
	s := "<r><a m='1'/></r>"
	checkSetAttr(s, refParse(s), "r.a", "k", v)
	out, err := xmldot.Set(s, "r.a.@m", v)
	verdict(s, "r.a.@m", out, err)
}

// Line ends inside texts.
//
//verif:run C04 quick
func hC04Lines() {
	v := "x" + vStrIn(4, "\r\n\t y") + "z"
	setGet("<r><a>x</a></r>", "r.a", v)
	s := "<r><a k='1'>x</a></r>"
	checkSetAttr(s, refParse(s), "r.a", "k", v)
	s = "<r><a k='" + v + "'>" + v + "</a></r>"
	d := refParse(s)
	checkGet(s, d, "r.a")
	checkGet(s, d, "r.a.%")
	checkGet(s, d, "r.a.@k")
}

//verif:run C05 n=0..6 quick steps=40000000
//verif:run C05 n=11..11 quick steps=40000000
//verif:run C05 n=7..10 quick steps=800000000
func hC05Big(n int) {
	b := bigDoc(n, "a", "b")
	for _, a := range b.attrs {
		checkSetAttr(b.s, b.d, a[0], a[1], bigValue)
		checkDelete(b.s, b.d, a[0]+".@"+a[1])
	}
}

//verif:run C06 n=0..6 quick steps=40000000
//verif:run C06 n=11..11 quick steps=40000000
//verif:run C06 n=7..7 quick steps=800000000
//verif:run C06 n=9..9 quick steps=800000000
//verif:run C06 n=8..8 thorough steps=2000000000
//verif:run C06 n=10..10 thorough steps=2000000000
func hC06Big(n int) {
	b := bigDoc(n, "a", "b")
	v := rep("\"", 70) + pick("x\"'&<>") + rep(bigValue, 5)
	for _, p := range b.elems {
		keepsValid(b.s, p, v)
	}
	for _, a := range b.attrs {
		keepsValid(b.s, a[0]+".@"+a[1], v)
	}
}

//verif:run C07 n=0..6 quick steps=40000000
//verif:run C07 n=11..11 quick steps=40000000
//verif:run C07 n=7..10 quick steps=800000000
func hC07Big(n int) {
	b := bigDoc(n, "a", "b")
	for _, p := range b.elems {
		checkSet(b.s, b.d, p, "V")
	}
}

//verif:run C08 n=0..6 quick steps=40000000
//verif:run C08 n=11..11 quick steps=40000000
//verif:run C08 n=7..10 quick steps=800000000
func hC08Big(n int) {
	b := bigDoc(n, "a", "b")
	for _, p := range b.elems {
		checkDelete(b.s, b.d, p)
	}
	for _, a := range b.attrs {
		checkDelete(b.s, b.d, a[0]+".@"+a[1])
	}
}

//verif:run C09 n=0..6 quick steps=40000000
//verif:run C09 n=11..11 quick steps=40000000
//verif:run C09 n=7..10 quick steps=800000000
func hC09Big(n int) {
	b := bigDoc(n, "a", "b")
	for _, p := range b.elems {
		segs := steps(p)
		i := strings.LastIndex(p, ".")
		if i < 0 {
			checkAppend(b.s, b.d, "", p, "V", false)
		} else if segs[len(segs)-1].k == 'e' {
			checkAppend(b.s, b.d, p[:i], p[i+1:], "V", false)
			checkAppend(b.s, b.d, p[:i], p[i+1:], "<c/>", true)
		} else {
			checkAppend(b.s, b.d, p, "a", "V", false)
		}
	}
}

func bigReads(b *big) {
	for _, p := range b.elems {
		checkGet(b.s, b.d, p)
	}
	for _, a := range b.attrs {
		checkGet(b.s, b.d, a[0]+".@"+a[1])
	}
	for _, p := range b.reads {
		checkGet(b.s, b.d, p)
	}
}

//verif:run C10 n=0..6 quick steps=40000000
//verif:run C10 n=11..11 quick steps=40000000
//verif:run C10 n=7..10 quick steps=800000000
//verif:run C11 n=0..6 quick steps=40000000
//verif:run C11 n=11..11 quick steps=40000000
//verif:run C11 n=7..10 quick steps=800000000
//verif:run C14 n=0..6 quick steps=40000000
//verif:run C14 n=11..11 quick steps=40000000
//verif:run C14 n=7..10 quick steps=800000000
func hC10Big(n int) { bigReads(bigDoc(n, "a", "b")) }

//verif:run C16 n=0..6 quick steps=40000000
//verif:run C16 n=11..11 quick steps=40000000
//verif:run C16 n=7..10 quick steps=800000000
func hC16Big(n int) {
	b := bigDoc(n, "aB", "Ab")
	vAssume(distinctFold(b.d.roots))
	refFold = true
	defer func() { refFold = false }()
	bigReads(b)
	for _, p := range b.elems {
		checkSet(b.s, b.d, p, "V")
		checkDelete(b.s, b.d, p)
	}
	for _, a := range b.attrs {
		checkSetAttr(b.s, b.d, a[0], a[1], "V")
	}
}

// Deep recursive wildcards with elements of every form at every depth.
//
//verif:run C14 n=2..24 quick steps=40000000
//verif:run C19 n=20..24 quick steps=40000000
func hC14Deep(n int) {
	s, e := "", ""
	for i := 0; i < n; i++ {
		nm := "a"
		if i == n-2 || i == n/2 {
			nm = pick("ab")
		}
		s += "<" + nm + ">"
		e = "<b/></" + nm + "><a k='1'/>" + e
	}
	s = "<r>" + s + "x" + e + "</r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"**.b", "**.a", "**.a.b", "**", "r.**.a.@k", "**.*", "**.b.b"} {
		checkGet(s, d, p)
	}
}

// Operands several elements deep.
//
//verif:run C12 n=1..9 quick
func hC12Deep(n int) {
	op := []string{"", "==", "!=", "<", ">="}[vChoice(5)]
	mid, end, p := "", "", ""
	for i := 0; i < n; i++ {
		nm := "b"
		if i == n-1 || i == 2 {
			nm = pick("bc")
		}
		mid += "<" + nm + ">"
		end = "</" + nm + ">" + end
		p += "b."
	}
	p = p[:len(p)-1]
	v := pick("123")
	s := "<r><a>" + mid + v + end + "</a><a>" + mid + "2" + end + "</a><a><b>1</b></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	checkFilter(s, d, "r.a", op, p, "2", "", "b")
	if n > 1 {
		checkFilter(s, d, "r.a", op, p[:len(p)-2]+".@k", "2", "", "b")
	}
	checkFilter(s, d, "r.a", op, p, "2", "'", "b")
}

// Conditions over many elements.
//
//verif:run C12 quick steps=40000000
func hC12Many() {
	s := "<r>"
	for i := 0; i < 36; i++ {
		v := itoa(i % 3)
		if i == 11 || i == 33 {
			v = pick("012")
		}
		switch i % 3 {
		case 0:
			s += "<a k='" + v + "'><b>" + v + "</b></a>"
		case 1:
			s += "<a k='" + v + "'/>"
		default:
			s += "<a><b>" + v + "</b></a><c/>"
		}
	}
	s += "</r>"
	d := refParse(s)
	for _, c := range [][3]string{{"==", "@k", "1"}, {"==", "b", "2"}, {">=", "b", "1"}, {"!=", "@k", "0"}, {"", "@k", ""}, {"", "b", ""}, {"==", "b", "7"}} {
		checkFilter(s, d, "r.a", c[0], c[1], c[2], "", "b", "@k", "#.b", "12", "11.b", "#")
		checkFilter(s, d, "r.*", c[0], c[1], c[2], "", "b")
	}
}

// Long operands, values and names in conditions.
//
//verif:run C12 n=0..4 quick
func hC12LongValue(n int) {
	k := []int{8, 16, 32, 64, 100}[n]
	v, w, nm := rep("v", k)+pick("12"), rep("v", k)+pick("12"), rep("n", k)+pick("ab")
	s := "<r><a " + nm + "='" + v + "'><" + nm + ">" + w + "</" + nm + "></a><a " + rep("n", k) + "a='" + w + "'/></r>"
	d := refParse(s)
	for _, op := range []string{"==", "!=", "", "<", ">"} {
		checkFilter(s, d, "r.a", op, "@"+rep("n", k)+"a", rep("v", k)+"1", "")
		checkFilter(s, d, "r.a", op, rep("n", k)+"b", rep("v", k)+"2", "'")
	}
}

// Texts in conditions keep their case when names do not.
//
//verif:run C16 quick
func hC16Value() {
	t, u, v := pick("aAbB"), pick("aA"), pick("aA")
	s := "<r><A K='" + u + "'><" + t + ">" + v + "</" + t + "></A><a k='a'><b>A</b></a></r>"
	d := refParse(s)
	refFold = true
	defer func() { refFold = false }()
	for _, q := range []string{"", "'"} {
		for _, op := range []string{"==", "!="} {
			for _, w := range []string{"a", "A"} {
				checkFilter(s, d, "R.a", op, "B", w, q, "b")
				checkFilter(s, d, "r.A", op, "@k", w, q, "@K")
				checkFilter(s, d, "r.*", op, "@K", w, q)
			}
		}
	}
	for _, w := range []string{"a", "A", "?", "a*"} {
		r := xmldot.GetWithOptions(s, "r.a.#(@K%'"+w+"')#", foldOptions())
		n := 0
		for _, x := range []string{u, "a"} {
			if refMatch(x, w) {
				n++
			}
		}
		vAssert(len(r.Array()) == n, "patterns keep their case")
	}
}

// Modifiers on long lists.
//
//verif:run C15 n=0..4 quick steps=40000000
func hC15Big(n int) {
	c15Custom()
	defer xmldot.UnregisterModifier("twice")
	k := []int{5, 9, 13, 20, 40}[n]
	s := "<r>"
	for i := 0; i < k; i++ {
		v := itoa(i * 7 % k)
		if i == 3 || i == k-1 {
			v = "1" + pick("019a")
		}
		if vBool() == false && i == 1 {
			v = "x" + v
		}
		s += "<a k='" + v + "'>" + v + "</a>"
	}
	s += "</r>"
	// equal numbers may come in any order, but equal values look the same here
	for _, m := range []string{"sort", "reverse", "first", "last", "flatten", "twice"} {
		checkMods(s, "r.a.#.%", []string{m})
		checkMods(s, "r.*", []string{m, "reverse"})
		checkMods(s, "r.a.#.@k", []string{"sort", m})
	}
}

// Empty values pass through chains like others.
//
//verif:run C15 quick
func hC15Blank() {
	c15Custom()
	defer xmldot.UnregisterModifier("twice")
	fixed := xmldot.NewModifierFunc("fixed", func(r xmldot.Result) xmldot.Result {
		return xmldot.Result{Type: xmldot.String, Str: "F", Raw: "F"}
	})
	vAssert(xmldot.RegisterModifier("fixed", fixed) == nil, "a custom modifier can be registered")
	defer xmldot.UnregisterModifier("fixed")
	t := vStrIn(1, " ab")
	s := "<r><a k=''>" + t + "</a><a></a><b/><c><d/></c></r>"
	base := []string{"r.a.0", "r.a.1", "r.b", "r.c", "r.a.0.@k", "r.a.1.%", "r.b.%", "r.*", "r.c.*", "r.a.#.@k", "r.z"}[vChoice(11)]
	for _, m := range c15Mods {
		for _, k := range c15Mods {
			checkMods(s, base, []string{m, k})
		}
		exists := refMod(xmldot.Get(s, base), m).Exists()
		r := xmldot.Get(s, base+"|@"+m+"|@fixed")
		vAssert(!exists || r.Str == "F", "a custom modifier sees empty values")
		vAssert(!xmldot.Get(s, base+"|@"+m+"|@nope").Exists() && !xmldot.Get(s, base+"|@"+m+"|@nope|@"+m).Exists(), "an unknown modifier gives a non-existing result")
	}
}

// Longer paths keep their meaning.
//
//verif:run C17 n=0..4 quick steps=40000000
func hC17LongPath(n int) {
	k := 3 + 3*vChoice(4)
	s, e, p := "<R>", "</R>", "R"
	for i := 0; i < k; i++ {
		nm := pick("aA")
		if i < k-2 {
			nm = []string{"A", "a"}[i%2]
		}
		s += "<" + nm + " K='" + itoa(i) + "'>"
		e = "</" + nm + "><a/>" + e
		p += "." + nm
	}
	s += "x" + e
	p += []string{"", ".@K", ".0", ".#.A", "|@first"}[vChoice(5)]
	q := p + "."
	if vBool() {
		q = "." + p
	}
	disturb(s, p, n)
	a, b := outcomes(s, p), outcomes(s, p)
	vAssert(sameTexts(a, b), "a path means the same every time")
	vAssert(n == 1 || sameTexts(a, outcomes(s, "."+p)), "a path means the same whichever call met it first")
	disturb(s, q, 0)
	vAssert(sameTexts(outcomes(s, p), a), "a path means the same after other calls")
	vObs(a[0])
}

// Five and more attributes.
//
//verif:run C18 n=0..5 quick repeat=60
func hC18Many(n int) {
	x := pick("aAkz")
	s := "<r><a c='1' a='2' b='3' " + x + "1='4' d='5'>t</a></r>"
	vAssume(refParse(s).ok)
	switch n {
	case 0:
		twiceSame("Delete of an attribute", func() string { return wrote(xmldot.Delete(s, "r.a.@b")) })
	case 1:
		twiceSame("Set of an attribute", func() string { return wrote(xmldot.Set(s, "r.a.@d", "V")) })
	case 2:
		twiceSame("case-insensitive Delete", func() string {
			out, err := xmldot.DeleteBytesWithOptions([]byte(s), "r.a.@A", foldOptions())
			return wrote(string(out), err)
		})
	case 3:
		twiceSame("case-insensitive Set", func() string { return wrote(xmldot.SetWithOptions(s, "r.A.@B", "V", foldOptions())) })
	case 4:
		twiceSame("Delete of the last attribute", func() string { return wrote(xmldot.Delete(s, "r.a.@d")) })
	case 5:
		twiceSame("Delete and Set", func() string {
			out, _ := xmldot.DeleteMany(s, "r.a.@c", "r.a.@d")
			return out
		})
	}
}

// Numeric and other references in full.
//
//verif:run C20 n=0..5 quick
func hC20Reference(n int) {
	t := []string{"&#", "&#x", "&#0", "&", "&l", "&ap"}[n] + vStrIn(2, "0123456789abcdefltgopsqu") + pick(";3o&") + ";"
	s := "<r><a k=\"" + t + "\">" + t + "</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r.a", "r.a.%", "r.a.@k", "r.a.#.%"} {
		checkGet(s, d, p)
	}
}

// Long stretches of other markup.
//
//verif:run C20 n=0..4 quick steps=40000000
func hC20Big(n int) {
	k := []int{8, 20, 70, 150, 300}[n]
	for kind := 0; kind < 5; kind++ {
		text := rep("a ", k/2) + pick("<>/ab-]?") + rep("<b>", k/3) + "</r>" + pick("<>/ab-]?")
		if kind == 4 {
			text = " r" + rep(" a", k/2)
		}
		x := opaque(kind, text)
		c20Check(fillIn(c20Places[vChoice(len(c20Places))], x))
	}
}

// Long raw texts.
//
//verif:run C21 n=0..4 quick steps=40000000
func hC21Big(n int) {
	k := []int{4, 10, 20, 35, 48}[n]
	x := pick("a/<>&")
	raw := []string{
		rep("<a>", k) + x + rep("</a>", k),
		rep("<a k='1'/>", k) + x + "<b>",
		rep("t ", k) + "<" + x + ">",
		"<a " + rep("k ='1' m=\"2\" ", k) + x + ">",
		"<!--" + rep("<a>", k) + x + "-->",
		"<![CDATA[" + rep("]", k) + x + "]]>",
		rep("<a></a>", k) + "</r>" + x,
		"<" + rep("n", k) + x + "/>",
	}[vChoice(8)]
	checkRaw(c21Targets[vChoice(4)], raw)
}

// Chained queries on large elements, and lists of paths with repetitions.
//
//verif:run C22 n=0..6 quick steps=200000000
//verif:run C22 n=11..11 quick steps=40000000
//verif:run C22 n=7..9 quick steps=800000000
func hC22Big(n int) {
	b := bigDoc(n, "a", "b")
	for _, p := range b.elems {
		i := strings.Index(p, ".")
		if i < 0 {
			continue
		}
		checkChain(b.s, b.d, p[:i], p[i+1:])
		if j := strings.Index(p[i+1:], "."); j > 0 {
			checkChain(b.s, b.d, p[:i+1+j], p[i+2+j:])
		}
	}
}

//verif:run C22 quick
//verif:run C26 quick
func hC22Many() {
	s := "<r><a><b>1</b><c>2</c></a><b>" + pick("3<") + "/>x</b></r>"
	ps := []string{"a", "a.b", "b", "z", "a.c"}
	n := 3 + vChoice(2)
	var paths []string
	for i := 0; i < n; i++ {
		paths = append(paths, ps[vChoice(len(ps))])
	}
	keep := append([]string{}, paths...)
	r := xmldot.Get(s, "r")
	got := r.GetMany(paths...)
	vAssert(len(got) == n, "GetMany gives one result per path")
	for i, p := range keep {
		vAssert(shown(got[i]) == shown(r.Get(p)), "GetMany equals Get call by call")
	}
	var full []string
	for _, p := range paths {
		full = append(full, "r."+p)
	}
	got = xmldot.GetMany(s, full...)
	for i, p := range keep {
		vAssert(shown(got[i]) == shown(xmldot.Get(s, "r."+p)), "GetMany equals Get call by call")
		vAssert(paths[i] == p && full[i] == "r."+p, "GetMany leaves the paths alone")
	}
}

// Lists of paths with repetitions are left alone by batch writes.
//
//verif:run C26 quick
//verif:run C24 quick
func hC26Lists() {
	s := "<r><a k='" + pick("1'") + ">1</a><a>2</a><b/></r>"
	ps := []string{"r.a", "r.b", "r.a.1", "r.a.@k", "r.c"}
	n := 3 + vChoice(2)
	var paths []string
	var vals []interface{}
	for i := 0; i < n; i++ {
		paths = append(paths, ps[vChoice(len(ps))])
		vals = append(vals, itoa(i))
	}
	keep := append([]string{}, paths...)
	same := func() bool {
		for i := range keep {
			if paths[i] != keep[i] || vals[i] != interface{}(itoa(i)) {
				return false
			}
		}
		return true
	}
	want, werr := seqDelete(s, paths)
	if !refParse(s).ok {
		want = s
	}
	out, err := xmldot.DeleteMany(s, paths...)
	vAssert(out == want && sameError(err, werr), "DeleteMany equals one Delete after another")
	vAssert(same(), "DeleteMany leaves its arguments alone")
	b, err := xmldot.DeleteManyBytes([]byte(s), paths...)
	vAssert(string(b) == want && sameError(err, werr), "DeleteManyBytes equals one Delete after another")
	vAssert(same(), "DeleteManyBytes leaves its arguments alone")
	checkSetMany(s, paths, vals)
	vAssert(same(), "SetMany leaves its arguments alone")
}

// Options are left alone whatever they hold.
//
//verif:run C26 quick
func hC26Options() {
	ind, pre := vStrIn(2, " \tx-"), vStrIn(1, " x")
	s := "<R><a k='1'>t</a></R>"
	p := []string{"r.A", "r.a.@K", "r.b.c", "R.a.-1", "r.*"}[vChoice(5)]
	ns := map[string]string{"p": "u", "q": ""}
	o := xmldot.Options{CaseSensitive: vBool(), Indent: ind, PreserveWhitespace: vBool(), Namespaces: ns}
	cs, pw := o.CaseSensitive, o.PreserveWhitespace
	kept := func() bool {
		return o.CaseSensitive == cs && o.Indent == ind && o.PreserveWhitespace == pw && len(ns) == 2 && ns["p"] == "u" && ns["q"] == "" && len(o.Namespaces) == 2
	}
	b := []byte(s)
	xmldot.GetWithOptions(s, p, &o)
	xmldot.GetBytesWithOptions(b, p, &o)
	vAssert(kept(), "queries leave the options alone")
	out1, err1 := xmldot.SetWithOptions(s, p, pre+"v", &o)
	vAssert(kept(), "SetWithOptions leaves the options alone")
	out2, err2 := xmldot.SetBytesWithOptions(b, p, pre+"v", &o)
	vAssert(kept(), "SetBytesWithOptions leaves the options alone")
	vAssert(out1 == string(out2) && errName(err1) == errName(err2), "SetBytesWithOptions agrees with SetWithOptions")
	xmldot.DeleteBytesWithOptions(b, p, &o)
	vAssert(kept() && string(b) == s, "DeleteBytesWithOptions leaves its arguments alone")
	r := xmldot.Get(s, "R")
	r.GetWithOptions("A", &o)
	r.MapWithOptions(&o)
	vAssert(kept(), "chained queries leave the options alone")
}

//verif:run C23 n=0..6 quick steps=40000000
//verif:run C23 n=11..11 quick steps=40000000
//verif:run C23 n=7..10 quick steps=800000000
func hC23Big(n int) {
	b := bigDoc(n, "a", "b")
	for _, p := range append(b.elems, "r", "a") {
		checkMap(b.s, refFind(b.d.roots, steps(p)), doMap(doGet(b.s, p)))
	}
}

// Many different child names.
//
//verif:run C23 n=0..3 quick steps=40000000
func hC23Names(n int) {
	refFold = n%2 == 1
	defer func() { refFold = false }()
	s := "<r>"
	for i := 0; i < 36; i++ {
		nm := "n" + itoa(i%18)
		if i == 17 || i == 30 {
			nm = "N" + pick("19")
		}
		if n > 1 {
			nm = "p" + itoa(i%4) + ":" + nm
		}
		s += "<" + nm + ">" + itoa(i) + "</" + nm + ">"
	}
	s += "</r>"
	d := refParse(s)
	checkMap(s, d.roots[0], doMap(doGet(s, "r")))
}

// Long batches.
//
//verif:run C24 n=0..3 quick steps=40000000
func hC24Big(n int) {
	k := []int{5, 9, 17, 33}[n]
	s := "<r>" + rep("<a>x</a><b k='1'/>", 4) + "</r>"
	var paths []string
	var vals []interface{}
	for i := 0; i < k; i++ {
		p := []string{"r.a", "r.b.1", "r.n" + itoa(i), "r.a.2.c", "r.b.@k"}[i%5]
		if i == k-1 || i == k/2 {
			p = []string{"r.a.1", "r.b", "r.*", "r.n.m", "r.a.-1"}[vChoice(5)]
		}
		paths = append(paths, p)
		vals = append(vals, []interface{}{"v", i, true, 1.5}[i%4])
	}
	checkSetMany(s, paths, vals)
	if k < 10 {
		checkDeleteMany(s, paths)
	}
}

//verif:run C26 n=0..6 quick steps=40000000
//verif:run C26 n=11..11 quick steps=40000000
//verif:run C26 n=7..7 quick steps=800000000
//verif:run C26 n=9..9 quick steps=800000000
func hC26Big(n int) {
	b := bigDoc(n, "a", "b")
	p := b.elems[vChoice(len(b.elems))]
	readsAgree(b.s, p)
	writesAgree(b.s, p, bigValue)
	deletesAgree(b.s, p)
	validAgrees(b.s)
}

// One arbitrary byte anywhere in a large document.
//
//verif:run C03 n=0..6 quick steps=40000000
//verif:run C03 n=11..11 quick steps=40000000
func hC03Big(n int) {
	bigPlain = true
	defer func() { bigPlain = false }()
	b := bigDoc(n, "a", "b")
	s := b.s
	i := vChoice(len(s))
	checkValid(s[:i] + vStr(1) + s[i+1:])
}

// The same for queries and writes, which must cope with it.
//
//verif:run C02 n=0..6 quick steps=80000000
//verif:run C02 n=11..11 quick steps=40000000
func hC02Big(n int) {
	bigPlain = true
	defer func() { bigPlain = false }()
	b := bigDoc(n, "a", "b")
	s := b.s
	i := vChoice(len(s))
	s = s[:i] + pick("<>/\"a") + s[i+1:]
	p := b.elems[len(b.elems)-1]
	writes(s, p)
}

//verif:run C01 n=0..6 quick steps=40000000
//verif:run C01 n=11..11 quick steps=40000000
func hC01Big(n int) {
	bigPlain = true
	defer func() { bigPlain = false }()
	b := bigDoc(n, "a", "b")
	s := b.s
	i := vChoice(len(s))
	s = s[:i] + pick("<>\"") + s[i+1:]
	p := append(b.reads, b.elems[0])[vChoice(len(b.reads)+1)]
	poke(xmldot.Get(s, p), n == 5)
	poke(xmldot.Get(s[:i], b.elems[0]), false)
}

// Documents that end inside a construct, or with one.
//
//verif:run C03 n=0..5 quick
func hC03End(n int) {
	checkValid([]string{"<a/><![CDATA[", "<a/><!--", "<a/><?", "<a/><!DOCTYPE", "<a></a><", "<a><![CDATA[]]></a><!["}[n] + vStrIn(4, "]>-?[! a/C"))
}

// A neighbour with any name of n bytes, holding elements of the same name, is
// told apart from the addressed ones.
//
//verif:run C07 n=1..3 quick
//verif:run C08 n=1..3 quick
//verif:run C09 n=1..3 quick
//verif:run C10 n=1..3 quick
//verif:run C11 n=1..3 quick
//verif:run C14 n=1..3 quick
func hC10Neighbour(n int) {
	x := vStr(n)
	if n == 3 {
		x = x[:1] + "a" + x[1:]
	}
	s := "<r><" + x + " " + x + "='1'><a>1</a></" + x + "><a a='2'>2</a><" + x + "/><a/></r>"
	d := refParse(s)
	vAssume(d.ok && len(d.roots) == 1 && len(d.roots[0].kids) == 4 && d.roots[0].kids[0].name == x)
	for _, p := range []string{"r.a", "r.a.1", "r.a.#", "r.a.@a", "**.a", "r.a.#.@a", "r.*.a"} {
		checkGet(s, d, p)
	}
	checkSet(s, d, "r.a", "V")
	checkSet(s, d, "r.a.1", "V")
	checkSetAttr(s, d, "r.a", "a", "V")
	checkDelete(s, d, "r.a")
	checkDelete(s, d, "r.a.1")
	checkDelete(s, d, "r.a.@a")
	checkAppend(s, d, "r", "a", "V", false)
	s = "<r><a>2</a><" + x + "><a>1</a></" + x + "></r>"
	d = refParse(s)
	checkAppend(s, d, "r", "a", "V", false)
	checkGet(s, d, "r.a.#")
	checkGet(s, d, "r.a.1")
	checkSet(s, d, "r.a.1", "V")
	checkDelete(s, d, "r.a.1")
}
