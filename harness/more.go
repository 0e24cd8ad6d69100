package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// A batch of which a later step fails: the Bytes forms return their input too.
//
//verif:run C02 n=0..2 quick
func hC02Batch(n int) {
	p := vStr(n)
	vals := []any{"v", 1, []string{"x"}, nil}[vChoice(4)]
	for _, s := range []string{"<a b='1'><b>2</b><b/></a>", "", "<a/><c>1</c>"} {
		b, err := xmldot.SetManyBytes([]byte(s), []string{"a.b", "c", p}, []any{"1", 2, vals})
		outcome(s, string(b), err, "SetManyBytes")
		b, err = xmldot.DeleteManyBytes([]byte(s), "c", "a.b", p)
		outcome(s, string(b), err, "DeleteManyBytes")
		out, err := xmldot.DeleteMany(s, "c", "a.b", p)
		outcome(s, out, err, "DeleteMany")
		b, err = xmldot.SetBytesWithOptions([]byte(s), p, vals, &xmldot.Options{})
		outcome(s, string(b), err, "SetBytesWithOptions")
		b, err = xmldot.SetBytes([]byte(s), p, vals)
		outcome(s, string(b), err, "SetBytes")
		b, err = xmldot.DeleteBytes([]byte(s), p)
		outcome(s, string(b), err, "DeleteBytes")
	}
}

// Index paths, whether the element is there or not: what was written is found
// again where it was written.
//
//verif:run C04 n=0..3 quick
//verif:run C05 n=0..3 quick
func hC04Index(n int) {
	i := vStrIn(1, "0123")
	if vBool() {
		i += vStrIn(1, "01")
	}
	v := vStrIn(1, "x <&\"")
	s := []string{"<r><a>1</a><b/><a>2</a></r>", "<r/>", "<a>1</a><a k='1'/>", ""}[n]
	for _, p := range []string{"r.a.{}", "r.a.{}.b", "r.b.{}", "a.{}", "a.{}.b.0", "r.{}.a", "r.{}.a.{}", "r.0.a.{}.c.d", "{}", "r.c.{}"} {
		p = strings.ReplaceAll(p, "{}", i)
		out, err := xmldot.Set(s, p, v)
		if err == nil {
			g := xmldot.Get(out, p)
			vAssert(g.Exists() && g.Str == strings.TrimSpace(v), "Get "+p+" returns what Set wrote")
		} else {
			vAssert(out == s && !xmldot.Get(s, p).Exists(), "Set of an element that exists succeeds")
		}
		vObs(out)
		out, err = xmldot.Set(s, p+".@k", v)
		if err == nil {
			g := xmldot.Get(out, p+".@k")
			vAssert(g.Exists() && g.Str == v, "Get "+p+".@k returns what Set wrote")
		} else {
			vAssert(out == s && !xmldot.Get(s, p).Exists(), "Set of an attribute of an element that exists succeeds")
		}
		vObs(out)
	}
}

// Indices that name no element, negative ones included.
//
//verif:run C08 n=0..4 quick
func hC08Nothing(n int) {
	x := vStrIn(1, "-0123456789") + vStrIn(1, "0123456789")
	if vBool() {
		x += vStrIn(1, "0123456789")
	}
	s := []string{"<r><a k='1'>1</a><b/><a k='2'>2<c/></a></r>", "<a>1</a><a>2</a>", "<r><a/></r>", "<r><a><a>1</a></a></r>", "<a k='1'><a/><a/><a/></a>"}[n]
	for _, p := range []string{"r.a.", "a.", "r.", "r.a.1.c.", "r.c.", "a.a."} {
		for _, q := range []string{"", ".c", ".@k"} {
			g := xmldot.Get(s, p+x+q)
			out, err := xmldot.Delete(s, p+x+q)
			if g.Exists() {
				vAssert(err == nil && len(out) < len(s), "Delete removes an element that exists")
			} else {
				vAssert(err == nil && out == s, "Delete of an element that does not exist changes nothing")
			}
			vObs(out)
		}
	}
}

// Indices around the word sizes.
//
//verif:run C11 n=0..5 quick
func hC11Huge(n int) {
	t := []string{"2147483", "42949672", "92233720368547758", "184467440737095516", "3689348814741910323", "99999999999999999999999999999999"}[n]
	t += vStrIn(2, "0123456789")
	if vBool() {
		t += vStrIn(1, "0123456789")
	}
	s := "<r><a>0</a><b/><a k='1'>1<c>2</c></a></r><r/>"
	for _, p := range []string{"r.a." + t, "r.a." + t + ".c", "r.a." + t + ".@k", "r.a." + t + ".%", "r." + t, "r." + t + ".a", "r.*." + t, "r.a.-" + t} {
		vAssert(!xmldot.Get(s, p).Exists(), "no element beyond the count")
		vAssert(!xmldot.GetWithOptions(s, p, &xmldot.Options{}).Exists(), "no element beyond the count")
	}
	if out, err := xmldot.Set(s, "r.a."+t, "x"); err == nil {
		vAssert(xmldot.Get(out, "r.a."+t).Str == "x", "no other element is written")
	}
	out, err := xmldot.Delete(s, "r.a."+t)
	vAssert(err == nil && out == s, "no other element is deleted")
}

// Existence, with empty and blank texts and attributes.
//
//verif:run C12 n=0..3 quick steps=60000000
func hC12Exists(n int) {
	x, y := "", ""
	if n&1 == 1 {
		x = vStrIn(1, "x \t&")
	}
	if n&2 == 2 {
		y = vStrIn(1, "x \n0")
	}
	s := "<r><a>1</a><a k=''>2</a><a k='" + x + "'><b>" + x + "</b>3</a><a j=\"" + y + "\" k='z'><b/>4</a><a><c><b>" + y + "</b></c>5</a><a><b k='" + y + "'><b/></b>6</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"@k", "@j", "b", "c", "c.b", "b.b", "b.@k", "c.@k", "*", "b.0", "b.1", "c.b.0"} {
		checkFilter(s, d, "r.a", "", p, "", "", "%", "b", "@k")
		checkFilter(s, d, "r.a", "==", p, "", "'", "%")
		checkFilter(s, d, "r.a", "!=", p, "", "'", "%")
		checkFilter(s, d, "r.a", "!=", p, "x", "'", "%")
	}
}

// Recursive search through n*1000 elements finds what comes last.
//
//verif:run C14 n=1..4 quick steps=400000000
func hC14Wide(n int) {
	x := pick("ab")
	in := rep("<c>t</c>", 24)
	s := "<r>" + rep("<d>"+in+"</d>", 40*n) + "<e><" + x + " k='1'>u</" + x + "><b>v</b></e></r>"
	d := refParse(s)
	for _, p := range []string{"r.**.a", "r.**.b", "r.**.a.@k", "r.e.**.b", "**.b.%", "r.d." + itoa(40*n-1) + ".c.23", "r.e.a", "r.e.b.#"} {
		checkGet(s, d, p)
	}
}

// Letters outside ASCII have no case, also those an ASCII letter is the other
// case of in Unicode.
//
//verif:run C16 n=0..4 quick
func hC16Letters(n int) {
	m := []byte{0xc3, vByte()}
	vAssume(m[1] >= 0x80 && m[1] <= 0xbf)
	x := string(m)
	if n > 0 {
		x = []string{"K", "ſ", "ω", "İ"}[n-1]
	}
	y := []string{"é", "k", "s", "Ω", "i"}[n]
	z := []string{"É", "K", "S", "ω", "I"}[n]
	doc := func(x, y string) string {
		return "<r><" + x + " " + x + "='1'>t</" + x + "><" + y + " " + x + "='2' " + y + "='3'>u</" + y + "></r>"
	}
	s, low := doc(x, y), doc(lower(x), lower(y))
	for _, q := range []string{y, z, "è"} {
		for _, p := range []string{"r.{}", "r.{}.#", "r.{}.1", "**.{}", "r.*.@{}", "r.{}.@{}", "r.{}.#(@{}==3)", "r.{}.#(@{})#.@{}"} {
			r := xmldot.GetWithOptions(s, strings.ReplaceAll(p, "{}", q), foldOptions())
			vAssert(eqResult(r, xmldot.Get(low, strings.ReplaceAll(p, "{}", lower(q)))), "only ASCII letters fold in "+p)
		}
	}
}

// Namespaces and PreserveWhitespace change nothing, whatever they say and
// whatever else is set.
//
//verif:run C16 n=0..5 quick
func hC16Namespaces(n int) {
	q := []string{"", "p:", "q:", "a:"}[vChoice(4)]
	x := pick("ab")
	s := "<r>\n <" + q + x + " xmlns:p='u' p:k='1' k=' 2 '> t <p:b/>\n</" + q + x + "> <b> \n</b><p:a>v</p:a></r>"
	o := &xmldot.Options{CaseSensitive: n < 3, PreserveWhitespace: n%3 == 2}
	base := &xmldot.Options{CaseSensitive: n < 3}
	o.Namespaces = []map[string]string{{}, {"p": ""}, {"": "u"}, {"p": "u", "q": "u"}, {"a": "p", "p": "a"}, {"u": "p"}}[n]
	for _, p := range []string{"r.p:a", "r.q:a", "r.a", "r.p:b.k", "r.*.@p:k", "r.a.@k", "r.p:a.#", "r.a.#", "**.p:b", "r.b.%", "r.b", "r.a.p:b", "r.a.#(@p:k==1)", "r.*.#(p:b)#.@k", "r.u:a", ":a", "r.:a"} {
		vAssert(eqResult(xmldot.GetWithOptions(s, p, o), xmldot.GetWithOptions(s, p, base)), "Namespaces and PreserveWhitespace make no difference to Get "+p)
		a, err := xmldot.SetWithOptions(s, p, " V\n", o)
		b, err2 := xmldot.SetWithOptions(s, p, " V\n", base)
		vAssert(a == b && errName(err) == errName(err2), "Namespaces and PreserveWhitespace make no difference to Set "+p)
		c, err := xmldot.DeleteBytesWithOptions([]byte(s), p, o)
		e, err2 := xmldot.DeleteBytesWithOptions([]byte(s), p, base)
		vAssert(string(c) == string(e) && errName(err) == errName(err2), "Namespaces and PreserveWhitespace make no difference to Delete "+p)
	}
}

// Blanks count in the length of a condition.
//
//verif:run C19 n=255..258 quick
func hC19FilterBlanks(n int) {
	v := string([]byte{vByteIn("xy")})
	s := "<r><b><c>x</c></b></r>"
	for _, cond := range [][2]string{{"", "c==" + v}, {"c==" + v, ""}, {"c", "==" + v}, {"c==", v}} {
		p := cond[0] + rep(" ", n-len(cond[0]+cond[1])) + cond[1]
		vAssert(xmldot.Get(s, "r.b.#("+p+")").Exists() == (n <= 256 && v == "x"), "conditions up to 256 bytes are evaluated, longer ones match nothing")
	}
}

// Repeated attributes count as well.
//
//verif:run C19 n=98..101 quick steps=100000000
func hC19Repeated(n int) {
	k := pick("ab")
	s := "<r><a"
	for i := 0; i < n-1; i++ {
		s += " " + []string{"a", k, "c"}[i%3] + "='" + itoa(i) + "'"
	}
	s += " z='1'>t</a></r>"
	vAssert(xmldot.Get(s, "r.a.@z").Exists() == (n <= 100), "attributes after the 100th are ignored")
	vAssert(xmldot.Get(s, "r.*.@z").Exists() == (n <= 100), "attributes after the 100th are ignored")
	vAssert(xmldot.Get(s, "r.a.#(@z)").Exists() == (n <= 100), "attributes after the 100th are ignored")
	vAssert(xmldot.GetWithOptions(s, "r.A.@Z", foldOptions()).Exists() == (n <= 100), "attributes after the 100th are ignored")
	vAssert(xmldot.Get(s, "r.a").Str == "t", "the element is found")
}

// Words that mean something elsewhere, inside every construct at every place.
//
//verif:run C20 n=0..1 quick steps=20000000
//verif:run C20 n=2..2 thorough budget=600
func hC20Words(n int) {
	words := []string{"&amp;", "&lt;b&gt;", "&#60;", "\r\n", " xml version='1.0'", "CDATA[", "<!ENTITY a 'b'>", "<!DOCTYPE a>", "&", "<a/><a/>", "<c>1</c>", "%a;", "<r>"}
	w := words[vChoice(len(words))]
	v := vStr(n)
	x := opaque(vChoice(5), []string{w + v, v + w}[vChoice(2)])
	c20Check(fillIn(c20Places[vChoice(len(c20Places))], x))
}

// Declarations with n arbitrary bytes after the keyword.
//
//verif:run C21 n=0..2 quick
//verif:run C21 n=3..4 thorough budget=600
func hC21Keyword(n int) {
	w := []string{"<!DOCTYPE", "<!ENTITY", "<!doctype", "<!eNTITY", "<!ELEMENT", "<!DOCTYP", "<![CDATA", "<!ENTITYS", "<?xml", "<!-"}[vChoice(10)]
	raw := w + vStr(n) + []string{"", ">", "]]>", "-->", "?>"}[vChoice(5)]
	if vBool() {
		raw = "<b>" + raw + "</b>"
	}
	checkRaw(c21Targets[0], raw)
}

// Prefixes with a meaning of their own, and texts that look like references.
//
//verif:run C28 quick steps=20000000
func hC28Words() {
	q := []string{"", "xml:", "p:", "xmlns:", "a:", "XML:", "_:"}[vChoice(7)]
	x := pick("ab")
	v := []string{"&amp;#60;", "&amp;lt;", "&amp;amp;", "&quot;&amp;#x9;", "é]]", "&gt;/&gt;", "a.b", "&apos;\"", "#xA;", "&amp;#xA;&amp;#34;", " \tx"}[vChoice(11)]
	a := strings.ReplaceAll(v, "\"", "")
	s := "<r><" + q + x + " " + q + "k=\"" + a + "\" m='" + strings.ReplaceAll(a, "'", "") + "'><b>" + v + "</b><" + x + "/></" + q + x + "></r>"
	checkPretty(s)
	checkUgly(s)
	vAssert(!strings.Contains(xmldot.Get(s, "r|@pretty").Raw, "&#"), "@pretty makes no character references")
}

// Layout of larger documents.
//
//verif:run C28 n=0..6 quick steps=400000000
func hC28Big(n int) {
	b := bigDoc(n, "a", "b")
	checkUgly(b.s)
	if n == 4 { // line ends in attribute values
		return
	}
	if n == 2 {
		for i := 0; i < len(b.s); i++ {
			vAssume(b.s[i] != '\n' && b.s[i] != '\r')
		}
	}
	checkPretty(b.s)
}

// Numbers with one arbitrary byte before, inside and after the digits.
//
//verif:run C27 n=0..9 quick
func hC27FloatByte(n int) {
	f := []string{"12~", "~12", "1~5", "1.5~", "1e~", "~", "0~1", "1.~", "-~2", "1~e2"}[n]
	t := strings.ReplaceAll(f, "~", vStr(1))
	r := withText(t)
	if want, ok := refFloat(t); ok {
		vAssert(r.Float() == want, "Float is the decimal value of the text or 0")
	}
	vAssert(r.Int() == refInt(t), "Int is the decimal value of the text or 0")
}

// Numbers that lie close together or far apart, and lists long enough for every sorting strategy.
//
//verif:run C15 n=0..4 quick steps=20000000
func hC15Near(n int) {
	d := func() string { return vStrIn(1, "05") }
	f := [][]string{
		{"0.00~", "0.0~1", "0.00~1"},
		{"1000~", "100~0.5", "-1000~"},
		{"1e~", "9.~", "1~"},
		{"-0.~", "-.~1", ".0~"},
		{"0.00~", ".00~1", "+.0~"},
	}[n]
	var l []string
	s := "<r>"
	for _, t := range f {
		t = strings.ReplaceAll(t, "~", d())
		l = append(l, t)
		s += "<a>" + t + "</a>"
	}
	vAssume(distinctValues(l))
	checkMods(s+"</r>", "r.*", []string{"sort"})
	checkMods(s+"</r>", "r.a.#.%", []string{"sort", "last"})
}

//verif:run C15 n=0..2 quick steps=40000000
func hC15Long(n int) {
	l := strings.Fields([]string{
		"B a C b A c _ Z z y Y é x X",
		"9 10 -1 2.5 100 3 0 7 8 6 5 4 11 1000",
		"B a C b A c _ Z z y Y é x X 1 10 2 q Q w W e E r R t T u U i I o O p P s S d D f F g G h H",
	}[n])
	t := vStrIn(1, "aAb0")
	s := "<r>"
	for i, x := range l {
		if i == len(l)/2 {
			s += "<a>" + t + "~1</a>"
			if n == 1 {
				s = strings.ReplaceAll(s, "~", "")
			}
		}
		s += "<a>" + x + "</a>"
	}
	for _, m := range []string{"sort", "reverse", "first", "last", "flatten"} {
		checkMods(s+"</r>", "r.*", []string{m})
	}
	checkMods(s+"</r>", "r.a.#.%", []string{"sort", "reverse"})
}

// Results with empty texts among them.
//
//verif:run C15 quick
func hC15Empty() {
	s := "<r>"
	for i := 0; i < 3; i++ {
		s += []string{"<a/>", "<a></a>", "<a>x</a>", "<a> </a>", "<a k=''/>"}[vChoice(5)]
	}
	base := []string{"r.*", "r.a.#.%", "r.a.#.@k", "**.a", "r.a.#(@k)#"}[vChoice(5)]
	for _, m := range []string{"reverse", "first", "last", "flatten"} {
		checkMods(s+"</r>", base, []string{m})
	}
	checkMods(s+"</r>", base, []string{"reverse", "first"})
}

// Long texts and values that differ late or in length only.
//
//verif:run C12 n=0..3 quick steps=20000000
func hC12Long(n int) {
	pre := strings.Repeat("value-of-", []int{1, 2, 8, 25}[n])
	x, v := vStrIn(1, "abA"), vStrIn(1, "abA")
	t := pre + []string{"", x, x + "a"}[vChoice(3)]
	w := pre + []string{"", v, v + "a"}[vChoice(3)]
	s := "<r><a k=\"" + t + "\"><b>" + t + "</b></a><a k=\"" + w + "\"><b>" + pre + "</b></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, op := range textOps {
		checkFilter(s, d, "r.a", op, "b", w, "'", "@k")
		checkFilter(s, d, "r.a", op, "@k", w, "", "b")
	}
}

// Values with quotes inside: the outer pair is removed, once.
//
//verif:run C12 n=1..3 quick
//verif:run C12 n=4 thorough budget=300
func hC12Quotes(n int) {
	v, x := vStrIn(n, "a'\""), vStrIn(n, "a'\"")
	esc := strings.NewReplacer("'", "&apos;", "\"", "&quot;")
	s := "<r><a k=\"" + esc.Replace(x) + "\"/><a k=\"" + esc.Replace(v) + "\"/><a k=\"a\"/></r>"
	d := refParse(s)
	vAssume(d.ok)
	q := []string{"'", "\""}[vChoice(2)]
	for _, op := range textOps {
		checkFilter(s, d, "r.a", op, "@k", v, q, "@k")
	}
}

// Number results as a caller or a modifier may build them.
//
//verif:run C27 quick
func hC27Number() {
	n := []float64{0, -128, 65500, 2147483600, -2147483700, 1e12, -4503599627370496}[vChoice(7)]
	k := int64(vByteIn("\x00\x01\x0f\xff"))
	r := xmldot.Result{Type: xmldot.Number, Num: n + float64(k)}
	vAssert(r.Int() == int64(n)+k, "Int of a number is its integer")
	vAssert(r.Float() == n+float64(k), "Float of a number is the number")
	vAssert(r.Bool() == (n+float64(k) != 0), "Bool of a number tells zero apart")
	vAssert(r.Value() == interface{}(n+float64(k)), "Value of a number is the number")
}

// spaced is a document with blanks around the equals sign and after a value, and markup
// characters in the value.
func spaced(n int) (string, *rdoc) {
	q := []string{"'", "\""}[vChoice(2)]
	w := []string{" ", "\n", "\t"}[n]
	f := []string{"=", w + "=", "=" + w, w + "=" + w}[vChoice(4)]
	x := vStrIn(2, ">a/")
	b := "<b k" + f + q + x + q
	if vBool() {
		b += w
	}
	b += []string{"/>", ">t</b>"}[vChoice(2)]
	s := "<r><a>" + b + "<c>u</c></a><a><c>v</c></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	return s, d
}

//verif:run C10 n=0..2 quick
func hC10Spaced(n int) {
	s, d := spaced(n)
	for _, p := range []string{"r.a", "r.a.b", "r.a.b.@k", "r.a.c", "r.a.%"} {
		checkGet(s, d, p)
	}
}

//verif:run C11 n=0..2 quick
func hC11Spaced(n int) {
	s, d := spaced(n)
	for _, p := range []string{"r.a.1", "r.a.1.c", "r.a.#", "r.a.#.c", "r.a.#.%"} {
		checkGet(s, d, p)
	}
}

//verif:run C14 n=0..2 quick
func hC14Spaced(n int) {
	s, d := spaced(n)
	for _, p := range []string{"r.*", "r.*.c", "**.c", "r.**.b", "r.a.*"} {
		checkGet(s, d, p)
	}
}

//verif:run C07 n=0..2 quick
func hC07Spaced(n int) {
	s, d := spaced(n)
	for _, p := range []string{"r.a.b", "r.a.c", "r.a.1.c"} {
		checkSet(s, d, p, "n")
	}
}

//verif:run C08 n=0..2 quick
func hC08Spaced(n int) {
	s, d := spaced(n)
	for _, p := range []string{"r.a.b", "r.a.c", "r.a.1.c"} {
		checkDelete(s, d, p)
	}
}

// Names and attribute values of exactly 1 MB read back what was written.
//
//verif:run C19 n=0..2 quick steps=4000000000
func hC19TokenRead(n int) {
	c := string([]byte{vByteIn("xy")})
	x := strings.Repeat("x", c19Token-1) + c
	switch n {
	case 0:
		vAssert(xmldot.Get("<r k='"+x+"'/>", "r.@k").Str == x, "an attribute value of 1 MB is read")
	case 1:
		vAssert(xmldot.Get("<r><"+x+">v</"+x+"></r>", "r.*").String() == "v", "an element name of 1 MB is read")
	case 2:
		vAssert(xmldot.Get("<r "+x+"='1' m='2'/>", "r.@m").Str == "2", "an attribute after a name of 1 MB is read")
	}
}

// Field names up to the limit of 256 characters.
//
//verif:run C11 n=254..256 quick
func hC11FieldName(n int) {
	x := strings.Repeat("f", n-2) + vStrIn(2, "fg")
	y := strings.Repeat("f", n-2) + vStrIn(2, "fg")
	s := "<r><a><" + x + ">1</" + x + "></a><a><" + y + ">2</" + y + "></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	checkGet(s, d, "r.a.#."+x)
	vAssert(len(xmldot.Get(s, "r.a.#."+x).Array()) > 0, "a field name of up to 256 characters is read")
}

// Elements with long names whose content holds the name that is appended.
//
//verif:run C09 n=0..3 quick steps=20000000
func hC09LongName(n int) {
	l := strings.Repeat("n", []int{1, 31, 65, 300}[n])
	x := pick("ab")
	in := "<" + x + ">1</" + x + ">"
	s := in + "<" + l + ">" + in + "</" + l + ">"
	if vBool() {
		s = "<" + l + ">" + in + "</" + l + ">" + in
	}
	if vBool() {
		s += "<" + l + "/>"
	}
	d := refParse(s)
	vAssume(d.ok)
	checkAppend(s, d, "", "a", "v", false)
	checkAppend(s, d, l, "a", "v", false)
	w := "<r>" + s + "</r>"
	checkAppend(w, refParse(w), "r", "a", "v", false)
	checkAppend(w, refParse(w), "r."+l, "b", "v", false)
}
