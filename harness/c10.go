package main

// Every valid document of n bytes, several simple paths.
var c10Paths = []string{"a", "a.b", "a.@b", "a.%", "a.a", "b:a", "a.b.c"}

//verif:run C10 n=4..7 quick
//verif:run C10 n=8..9 thorough budget=200
func hC10Full(n int) {
	s := vStr(n)
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c10Paths {
		checkGet(s, d, p)
	}
}

// A root with n arbitrary bytes of content.
//
//verif:run C10 n=3..5 quick
//verif:run C10 n=6..7 thorough budget=200
func hC10Content(n int) {
	s := "<r x='1'>" + vStr(n) + "</r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r", "r.%", "r.a", "r.a.%", "r.b:a", "r.@x", "a"} {
		checkGet(s, d, p)
	}
}

// Start tags with n arbitrary bytes after the name.
//
//verif:run C10 n=1..6 quick
//verif:run C10 n=7..9 thorough budget=200
func hC10Tag(n int) {
	s := "<r><a" + vStr(n) + ">t</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r.a", "r.a.@b", "r.a.@x:b", "r.ab.@b", "r.@b", "r.a.%"} {
		checkGet(s, d, p)
	}
}

var c10Shapes = []string{
	"<{1}>{t}<{2}>{t}</{2}>{t}</{1}>",
	"<{1} {2}=\"{v}\"><{3} {2}='{q}'/>{t}</{1}>",
	"<r><{1}><{2}/></{1}><{3}><{4}>x</{4}></{3}></r>",
	"<r>{t}<{1}{s}><{1}>{t}</{1}{s}></{1}>{t}<{2}/></r>",
	"<r><!--{c}--><{1}>{t}</{1}><![CDATA[{d}]]><{2}>y</{2}></r>",
	"<{1}/><{2}>x</{2}><{3}><{1}>{t}</{1}></{3}>",
	"<r><p:{1}>1</p:{1}><q:{2}>2</q:{2}><{3}>3</{3}></r>",
	"<r><{1} {2}=\"1\" {3}=\"2\" p:{4}=\"3\"/><{1} {2}=\"4\"/></r>",
	"<{1}><{2}><{3}><{4}>{t}</{4}></{3}></{2}></{1}>",
	"<?x {p}?><r>{t}<?y {p}?><{1}>z</{1}></r>",
}

var c10ShapePaths = []string{"a", "r.a", "a.b", "r.a.b", "a.@b", "r.a.@b", "r.a.%", "a.%", "a.b.%", "r.p:a", "p:a", "r.a.@p:b", "a.b.a.b", "a.a.@a", "r.%", "r.b"}

//verif:run C10 n=0..9 quick
func hC10Shape(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand(c10Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c10ShapePaths {
		checkGet(s, d, p)
	}
}

//verif:run C10 n=0..9 thorough budget=120
func hC10ShapeDeep(n int) {
	t := &tmpl{names: "abr:", tlen: 3}
	s := t.expand(c10Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c10ShapePaths {
		checkGet(s, d, p)
	}
}

// Entity references and white space around text.
//
//verif:run C10 n=1..4 quick
//verif:run C10 n=5..6 thorough budget=200
func hC10Text(n int) {
	t := vStr(n)
	for i := 0; i < n; i++ {
		vAssume(t[i] != '<')
	}
	s := "<r>&" + t + ";<a>&lt" + t + "</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r", "r.%", "r.a"} {
		checkGet(s, d, p)
	}
}

// References next to each other and texts that look like the rest of one.
//
//verif:run C10 quick
func hC10Entity() {
	bits := []string{"&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "amp;", "lt;", "gt;", "quot;", "apos;", "&", "#38;", ";"}
	x := bits[vChoice(5)] + bits[vChoice(len(bits))] + string([]byte{vByteIn("a;&l ")}) + bits[vChoice(len(bits))]
	s := "<r><a k=\"" + x + "\">" + x + "</a><b>x</b></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r", "r.a", "r.a.%", "r.a.@k", "r.a.#.@k", "r.*.%"} {
		checkGet(s, d, p)
	}
}
