package main

import "github.com/netascode/xmldot"

// distinctFold: no element has two attributes that differ only in case.
func distinctFold(level []*rnode) bool {
	for _, n := range level {
		for i := range n.attrs {
			for j := 0; j < i; j++ {
				if lower(n.attrs[i].name) == lower(n.attrs[j].name) {
					return false
				}
			}
		}
		if !distinctFold(n.kids) {
			return false
		}
	}
	return true
}

// lowered returns the document with every element and attribute name in lower case.
func lowered(s string, d *rdoc) string {
	b := []byte(s)
	var walk func(level []*rnode)
	walk = func(level []*rnode) {
		for _, n := range level {
			down(b, n.start+1, len(n.name))
			if !n.self {
				down(b, n.close+2, len(n.name))
			}
			for _, a := range n.attrs {
				down(b, a.start, len(a.name))
			}
			walk(n.kids)
		}
	}
	walk(d.roots)
	return string(b)
}

func down(b []byte, at, n int) {
	for i := at; i < at+n; i++ {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
}

// foldGet: a case-insensitive query equals the reference, and equals the
// case-sensitive query on the lower-cased document and path.
func foldGet(s string, d *rdoc, p, pl string) {
	checkGet(s, d, p)
	r := xmldot.GetWithOptions(s, p, foldOptions())
	q := xmldot.Get(lowered(s, d), pl)
	vAssert(r.Type == q.Type && len(r.Results) == len(q.Results), "the same kind of result as with lower-cased names")
	if r.Type != xmldot.Array {
		vAssert(r.Str == q.Str, "the same text as with lower-cased names")
	}
	for i := range r.Results {
		vAssert(r.Results[i].Str == q.Results[i].Str, "the same texts as with lower-cased names")
	}
}

var c16Shapes = []string{
	"<R><{1}>{t}</{1}><{2}>2</{2}><{3}/></R>",
	"<r><{1} {2}=\"{v}\"><{3}>1</{3}></{1}><{1} {4}='2'><{3} {2}='5'>3</{3}></{1}></r>",
	"<{1}>1</{1}><{2}><{3}>A</{3}></{2}>",
	"<R><P:{1}>1</P:{1}><p:{2} P:{3}='2'/></R>",
	"<r><!--<A/>--><{1}>A<{2}/></{1}><![CDATA[<A/>]]></r>",
	"<r><{1}><b><{2}>1</{2}></b></{1}><{3}><B><a>2</a></B></{3}></r>",
}

var c16Paths = [][2]string{{"r.a", "r.a"}, {"R.A.b", "r.a.b"}, {"r.A.@B", "r.a.@b"}, {"r.a.#", "r.a.#"}, {"r.A.1", "r.a.1"}, {"r.a.#.B", "r.a.#.b"}, {"r.A.#.@b", "r.a.#.@b"},
	{"A", "a"}, {"a.B", "a.b"}, {"r.*.A", "r.*.a"}, {"**.A", "**.a"}, {"**.b.A", "**.b.a"}, {"r.P:a", "r.p:a"}, {"r.a.@p:B", "r.a.@p:b"}, {"r.*.@B", "r.*.@b"}, {"R.a.%", "r.a.%"}, {"a.#", "a.#"}, {"r.a.1.B.@a", "r.a.1.b.@a"}, {"*.A", "*.a"}, {"r.a.b.A", "r.a.b.a"}, {"**.A.#.b", "**.a.#.b"}, {"r.*.a.#.B", "r.*.a.#.b"}, {"**.A.#.@b", "**.a.#.@b"}}

func c16Doc(n int, names string, tlen int) (string, *rdoc) {
	t := &tmpl{names: names, tlen: tlen}
	s := t.expand(c16Shapes[n])
	d := refParse(s)
	vAssume(d.ok && distinctFold(d.roots))
	return s, d
}

func c16Get(n int, names string, tlen int) {
	s, d := c16Doc(n, names, tlen)
	refFold = true
	defer func() { refFold = false }()
	for _, p := range c16Paths {
		foldGet(s, d, p[0], p[1])
	}
}

//verif:run C16 n=0..5 quick
func hC16Get(n int) { c16Get(n, "aAbB", 1) }

//verif:run C16 n=0..5 thorough budget=200
func hC16GetDeep(n int) { c16Get(n, "aAbBcC[{", 2) }

// Conditions: operand names fold, values do not.
//
//verif:run C16 n=0..5 quick
func hC16Filter(n int) {
	s, d := c16Doc(n, "aAbB", 1)
	refFold = true
	defer func() { refFold = false }()
	checkFilter(s, d, "R.a", "==", "B", "A", "'", "b", "@B")
	checkFilter(s, d, "r.A", "!=", "@b", "2", "'", "B")
	checkFilter(s, d, "r.a", "", "B", "", "", "#.b")
	checkFilter(s, d, "r.a", "==", "B.a", "1", "'")
	checkFilter(s, d, "a", "", "b", "", "", "b")
}

// Writes with CaseSensitive=false.
//
//verif:run C16 n=0..5 quick
func hC16Write(n int) {
	s, d := c16Doc(n, "aAbB", 1)
	refFold = true
	defer func() { refFold = false }()
	for _, p := range []string{"r.A", "R.a.B", "r.a.1", "A", "a.b", "r.c.d", "r.a.1.B", "P:a", "r.p:A"} {
		checkSet(s, d, p, "V")
		checkDelete(s, d, p)
	}
	for _, p := range [][2]string{{"r.a", "B"}, {"R.A", "b"}, {"a", "a"}, {"r.a.b", "A"}, {"r.p:a", "P:A"}} {
		checkSetAttr(s, d, p[0], p[1], "V")
		checkDelete(s, d, p[0]+".@"+p[1])
	}
}

// n arbitrary bytes of name and attribute text.
//
//verif:run C16 n=1..3 quick
//verif:run C16 n=4..5 thorough budget=200
func hC16Name(n int) {
	nm := vStr(n)
	s := "<r><" + nm + " K='1'>x</" + nm + "></r>"
	d := refParse(s)
	vAssume(d.ok && len(d.roots) == 1 && len(d.roots[0].kids) == 1 && d.roots[0].kids[0].name == nm)
	refFold = true
	defer func() { refFold = false }()
	want := rval{}
	_, local := splitName(lower(nm))
	if local == "ab" {
		want = rval{k: 'E', str: "x", raw: "x"}
	}
	vAssert(same(doGet(s, "R.aB"), want), "names match ignoring the case of ASCII letters")
	vAssert(same(doGet(s, "r.AB"), want), "names match ignoring the case of ASCII letters")
	if local == "ab" {
		vReach("match")
	}
}

// Default options: every WithOptions function equals its plain form.
//
//verif:run C16 n=0..5 quick
func hC16Default(n int) {
	s, _ := c16Doc(n, "abAr", 1)
	plain := func(o *xmldot.Options) {
		for _, p := range []string{"r.a", "r.a.b", "r.A.@b", "r.a.#", "r.a.1", "r.a.#.b", "r.*", "**.a", "r.*.#", "r.a.#(b==A)#.b", "r.a.#(@b)", "a.#", "a.1", "r.p:a", "r.*.a", "r.a.%", "r.z.#.b", "z.#.b", "r.a|@first", "r.*|@reverse", "*", "**.*|@sort|@last", "**.a.#.b", "r.*.a.#.b", "r.*.#.a"} {
			r := xmldot.Get(s, p)
			vAssert(eqResult(xmldot.GetWithOptions(s, p, o), r), "GetWithOptions equals Get on "+p)
			vAssert(eqResult(xmldot.GetBytesWithOptions([]byte(s), p, o), r), "GetBytesWithOptions equals Get on "+p)
			vAssert(eqResult(xmldot.GetStringWithOptions(s, p, o), r), "GetStringWithOptions equals Get on "+p)
		}
		c, x := xmldot.Get(s, "r").Get("a"), xmldot.Get(s, "r").GetWithOptions("a", o)
		vAssert(eqResult(c, x), "chained GetWithOptions equals Get")
		for _, p := range []string{"r.a", "r.a.@b", "r.b.1", "r.c.d", "r.a.-1", "z", "r.*"} {
			a, err := xmldot.Set(s, p, "V")
			b, err2 := xmldot.SetWithOptions(s, p, "V", o)
			vAssert(a == b && (err == nil) == (err2 == nil), "SetWithOptions equals Set on "+p)
			bb, err2 := xmldot.SetBytesWithOptions([]byte(s), p, "V", o)
			vAssert(a == string(bb) && (err == nil) == (err2 == nil), "SetBytesWithOptions equals Set on "+p)
			a, err = xmldot.Delete(s, p)
			bb, err2 = xmldot.DeleteBytesWithOptions([]byte(s), p, o)
			vAssert(a == string(bb) && (err == nil) == (err2 == nil), "DeleteBytesWithOptions equals Delete on "+p)
		}
	}
	switch vChoice(4) {
	case 0:
		plain(nil)
	case 1:
		plain(xmldot.DefaultOptions())
	case 2:
		plain(&xmldot.Options{CaseSensitive: true, PreserveWhitespace: true})
	case 3:
		plain(&xmldot.Options{CaseSensitive: true, Namespaces: map[string]string{"p": "u"}})
	}
}

// Indent only adds white space around the elements it creates.
//
//verif:run C16 n=0..5 quick
func hC16Indent(n int) {
	s, _ := c16Doc(n, "abr", 1)
	o := xmldot.DefaultOptions()
	o.Indent = []string{"  ", "\t", "\n"}[vChoice(3)]
	for _, p := range []string{"r.a", "r.a.b", "r.a.@b", "r.c.d", "r.a.-1", "r.b.1", "z.y", "r.c.@d"} {
		a, err := xmldot.Set(s, p, "V W")
		b, err2 := xmldot.SetWithOptions(s, p, "V W", o)
		vAssert((err == nil) == (err2 == nil), "Indent does not change success on "+p)
		i, j := 0, 0
		for i < len(a) && j < len(b) && a[i] == b[j] {
			i, j = i+1, j+1
		}
		// only white space may have been added
		for j < len(b) {
			if i < len(a) && a[i] == b[j] {
				i, j = i+1, j+1
				continue
			}
			vAssert(b[j] == ' ' || b[j] == '\t' || b[j] == '\n', "Indent only adds white space on "+p)
			j++
		}
		vAssert(i == len(a), "Indent loses nothing on "+p)
		if err == nil && p != "r.a.-1" {
			vAssert(xmldot.Get(b, p).Str == "V W", "the value reads back with Indent on "+p)
		}
	}
}
