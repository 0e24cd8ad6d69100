package main

import "github.com/netascode/xmldot"

// checkArray compares count, index and field extraction of name under base with
// the document tree and with each other.
func checkArray(s string, d *rdoc, base, name string) {
	p := name
	if base != "" {
		p = base + "." + name
	}
	c := xmldot.Get(s, p+".#")
	n := 0
	if c.Exists() {
		n = int(c.Int())
	}
	for i := 0; i < 5; i++ {
		q := p + "." + itoa(i)
		checkGet(s, d, q)
		vAssert(xmldot.Get(s, q).Exists() == (i < n), "element i exists exactly for i below the count")
	}
	vAssert(!xmldot.Get(s, p+".-1").Exists(), "no element before the first")
	vObsInt(n)
}

var c11Shapes = []string{
	"<r><{1}>{t}</{1}><{2}>2</{2}><{3}/></r>",
	"<r>{t}<{1}><{2} {3}='{q}'>1</{2}></{1}><{4} {3}=\"5\"><{5}>2</{5}></{4}></r>",
	"<{1}>1</{1}><{2}>{t}</{2}><{3}/>",
	"<{1}><{2}>1</{2}></{1}><{3} {4}=\"{v}\"><{2}>2</{2}></{3}>",
	"<r><{1}>1<{2}>2</{2}></{1}><!--{c}--><{1}>3</{1}><![CDATA[<a/>]]><{3}>4</{3}></r>",
	"<r><p:{1}>1</p:{1}><{1}>2</{1}><q:{2} {3}=''>3</q:{2}></r>",
	"<r><{1}><{2}/></{1}></r><r><{3}><{4}>x</{4}><{4}>y</{4}></{3}></r>",
	"<r><{1}/><{1}/><{2}/><{1}/></r>",
}

var c11Paths = []string{"r.a.#", "r.b.#", "r.a.0", "r.a.1.b", "r.a.0.@b", "r.a.1.%", "r.a.1.@a", "r.a.0.b.0", "r.a.1.b.#", "r.a.1.b.#.%", "r.0.a", "r.1.a", "a.#", "a.1", "a.1.b", "a.0.@a", "a.2",
	"r.a.#.b", "r.a.#.@b", "r.a.#.%", "a.#.b", "a.#.%", "a.#.@a", "r.#", "r.#.a", "r.p:a.#", "r.p:a.1", "r.a.#.p:b", "r.b.0.a.1", "r.a.b.1", "r.a.b.#"}

func c11Run(n int, names string, tlen int) {
	t := &tmpl{names: names, tlen: tlen}
	s := t.expand(c11Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	checkArray(s, d, "r", "a")
	checkArray(s, d, "", "a")
	for _, p := range c11Paths {
		checkGet(s, d, p)
	}
}

//verif:run C11 n=0..7 quick
func hC11Shape(n int) { c11Run(n, "ab", 1) }

//verif:run C11 n=0..7 thorough budget=200
func hC11ShapeDeep(n int) { c11Run(n, "abr:", 2) }

// A parent whose content is n arbitrary bytes.
//
//verif:run C11 n=4..5 quick
//verif:run C11 n=6..8 thorough budget=300
func hC11Content(n int) {
	s := "<r><a/>" + vStr(n) + "<a>x</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r.a.#", "r.a.1", "r.a.2", "r.a.#.a", "r.b.#"} {
		checkGet(s, d, p)
	}
}

// Root-level sequences with n arbitrary bytes between two roots.
//
//verif:run C11 n=4..5 quick
//verif:run C11 n=6..8 thorough budget=300
func hC11Roots(n int) {
	s := "<a/>" + vStr(n) + "<a k='1'>x</a>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"a.#", "a.1", "a.2", "a.#.@k", "a.#.%", "b.#"} {
		checkGet(s, d, p)
	}
}

// Names with dots, hyphens and colons as field names.
//
//verif:run C11 quick
func hC11Names() {
	nm := "a" + string([]byte{vByteIn("a.-_:1B")}) + "b"
	esc := ""
	for i := 0; i < len(nm); i++ {
		if nm[i] == '.' {
			esc += "\\"
		}
		esc += nm[i : i+1]
	}
	s := "<r><i><" + nm + ">1</" + nm + "></i><i " + nm + "='2'/><i><" + nm + "/><c/></i></r>"
	d := refParse(s)
	vAssume(d.ok)
	l := refGet(s, d.roots, []rseg{{k: 'e', name: "r"}, {k: 'e', name: "i"}, {k: 'f', name: nm}})
	vAssert(same(xmldot.Get(s, "r.i.#."+esc), l), "field extraction lists the named field")
	l = refGet(s, d.roots, []rseg{{k: 'e', name: "r"}, {k: 'e', name: "i"}, {k: 'f', name: "@" + nm}})
	vAssert(same(xmldot.Get(s, "r.i.#.@"+esc), l), "field extraction lists the named attribute")
	l = refGet(s, d.roots, []rseg{{k: 'e', name: "r"}, {k: 'e', name: "i"}, {k: 'i', idx: 2}, {k: 'e', name: nm}, {k: 'n'}})
	vAssert(same(xmldot.Get(s, "r.i.2."+esc+".#"), l), "counts the named element")
	obsVal(l)
}

// Field names of n+1 characters, each any letter, digit or mark a name may have.
//
//verif:run C11 n=0..2 quick
//verif:run C11 n=3..4 thorough budget=200
func hC11Field(n int) {
	nm, esc := "", ""
	for i := 0; i <= n; i++ {
		c := vByte()
		vAssume(c < 0x80 && isNameByte(c) && c != ':' && (i > 0 || isNameStart(c)))
		if c == '.' {
			esc += "\\"
		}
		nm += string([]byte{c})
		esc += string([]byte{c})
	}
	s := "<r><i " + nm + "='2'><" + nm + ">1</" + nm + "></i><i/><i><c/><" + nm + "/></i></r>"
	d := refParse(s)
	vAssume(d.ok)
	checkPath(s, d, "r.i.#."+esc, append(steps("r.i"), rseg{k: 'f', name: nm}))
	checkPath(s, d, "r.i.#.@"+esc, append(steps("r.i"), rseg{k: 'f', name: "@" + nm}))
	checkPath(s, d, "r.i."+esc, append(steps("r.i"), rseg{k: 'e', name: nm}))
	checkPath(s, d, "r.i.@"+esc, append(steps("r.i"), rseg{k: 'a', name: nm}))
}

// Any index text of n digits with an optional sign.
//
//verif:run C11 n=1..3 quick
//verif:run C11 n=18..20 thorough budget=100
func hC11Index(n int) {
	t := vStrIn(n, "0123456789")
	s := "<r><a>0</a><b/><a>1</a><a>2</a></r>"
	r := xmldot.Get(s, "r.a."+t)
	i, lead := 0, true
	for k := 0; k < n; k++ {
		if i < 100 {
			i = i*10 + int(t[k]-'0')
		}
		lead = lead && t[k] == '0'
	}
	if i < 3 {
		vAssert(r.Exists() && r.Str == itoa(i), "element i is the i-th")
	} else {
		vAssert(!r.Exists(), "no element beyond the count")
	}
	if !lead {
		vAssert(!xmldot.Get(s, "r.a.-"+t).Exists(), "no element at a negative index")
	}
}
