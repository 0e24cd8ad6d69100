package main

import "github.com/netascode/xmldot"

// poke calls every method of a result; none may panic or hang.
func poke(r xmldot.Result, deep bool) {
	ex := r.Exists()
	_ = r.String()
	_ = r.Int()
	_ = r.Float()
	_ = r.Bool()
	_ = r.Value()
	n := len(r.Array())
	k := 0
	r.ForEach(func(i int, v xmldot.Result) bool {
		k++
		return true
	})
	vAssert(k == n, "ForEach visits what Array lists")
	vAssert(ex == (r.Type != xmldot.Null), "Exists means not Null")
	if r.IsArray() {
		vAssert(r.Type == xmldot.Array, "IsArray means Array")
	}
	m := r.Map()
	vAssert(m != nil, "Map is never nil")
	if deep {
		_ = r.Get("a")
		_ = r.Get("#")
		_ = r.Get("%")
		_ = r.Get("a.#.b")
		_ = r.GetMany("a", "*")
		_ = r.GetWithOptions("A", &xmldot.Options{})
		_ = r.MapWithOptions(&xmldot.Options{})
	}
	vObsInt(int(r.Type))
}

var c01Paths = []string{"a", "a.b", "*", "**.a", "a.@b", "a.%", "a.0", "a.#", "a.#.b", "a.#(b==1)", "a.#(@b%'*')#", "*.*", "a|@reverse", "a.**.b.0", "a.#(b>1)#.c|@sort", "a|@pretty", "a|@ugly", "**|@flatten|@last"}

// Documents of n arbitrary bytes, every kind of path.
//
//verif:run C01 n=0..5 quick
//verif:run C01 n=6..7 thorough budget=400
func hC01Doc(n int) {
	c01Doc(vStr(n))
}

func c01Doc(s string) {
	for _, p := range c01Paths {
		poke(xmldot.Get(s, p), false)
	}
	_ = xmldot.GetMany(s, "a", "b.c")
	o := &xmldot.Options{}
	_ = xmldot.GetWithOptions(s, "A.*.@b", o)
	_ = xmldot.GetWithOptions(s, "A.#(B==1)", o)
	_ = xmldot.Valid(s)
	if e := xmldot.ValidateWithError(s); e != nil {
		_ = e.Error()
	}
}

// Arbitrary bytes at delicate places of a document.
var c01Frames = [][2]string{
	{"<a", ""}, {"<a b", ""}, {"<a b=", ""}, {"<a b='", ""}, {"<a>", ""}, {"<a><b>", ""}, {"<a></", ""}, {"<!", ""}, {"<!--", ""},
	{"<![CDATA[", ""}, {"<?", ""}, {"<a><!", "</a>"}, {"<a>&", "</a>"}, {"<a ", "/><b/></a>"}, {"<!DOCTYPE ", ""}, {"<a/", ""}, {"<a><b/>", "<b>1</b></a>"}, {"<a><a><a", ""},
}

//verif:run C01 n=0..17 quick
func hC01Frame(n int) {
	k := 3
	if n%2 == 0 || n == 5 || n == 11 || n == 17 {
		k = 2
	}
	c01Doc(c01Frames[n][0] + vStr(k) + c01Frames[n][1])
}

//verif:run C01 n=0..17 thorough budget=300
func hC01FrameDeep(n int) {
	c01Doc(c01Frames[n][0] + vStr(5) + c01Frames[n][1])
}

const c01Sample = "<a b='1'>t<b k=\"2\">1</b><b>2</b><c:b/><b><d>x</d></b></a><a/>"

// Paths of n arbitrary bytes.
//
//verif:run C01 n=0..3 quick
//verif:run C01 n=4..4 thorough budget=600
func hC01Path(n int) {
	c01Path(vStr(n))
}

func c01Path(p string) {
	poke(xmldot.Get(c01Sample, p), true)
	_ = xmldot.GetWithOptions(c01Sample, p, &xmldot.Options{})
	_ = xmldot.Get("", p)
	_ = xmldot.Get("<a", p)
	_ = xmldot.Get("<a>x</a>", "a").Get(p)
}

// Arbitrary bytes at delicate places of a path.
var c01PFrames = [][2]string{
	{"a.#(", ""}, {"a.#(", ")"}, {"a.#(b", ")"}, {"a.#(b==", ")"}, {"a.#(b%", ")#"}, {"a.#(@", ")"}, {"a.#(b==\"", ")#.b"}, {"a.", ".b"},
	{"a|@", ""}, {"a.b|@sort", ""}, {"a.b.#", ""}, {"a.b.-", ""}, {"a.\\", ""}, {"**.", ""}, {"*", "b"}, {"a.b.9999999999", ""}, {"a.@", ""}, {"a.#(b!%", "?)"},
}

//verif:run C01 n=0..17 quick
func hC01PFrame(n int) {
	c01Path(c01PFrames[n][0] + vStr(2) + c01PFrames[n][1])
}

//verif:run C01 n=0..17 thorough budget=300
func hC01PFrameDeep(n int) {
	c01Path(c01PFrames[n][0] + vStr(3) + c01PFrames[n][1])
}
