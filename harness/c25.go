package main

import (
	"strconv"

	"github.com/netascode/xmldot"
)

// world is what the goroutines share.
type world struct {
	x    string // one unknown character of the document
	s    string
	b    []byte
	opts *xmldot.Options
	r    xmldot.Result
}

func newWorld() *world {
	x := vStrIn(1, "xy1")
	w := &world{x: x}
	w.s = "<r><a k=\"1\">" + x + "</a><b><c>2</c></b><b><c>3</c></b></r>"
	w.b = []byte(w.s)
	w.opts = &xmldot.Options{CaseSensitive: false, Namespaces: map[string]string{"p": "u"}}
	return w
}

func wr(out string, err error) string {
	if err != nil {
		return errName(err)
	}
	return out
}

type call struct {
	do   func(w *world) string
	want func(w *world) string
}

func doc(a, b string) func(w *world) string {
	return func(w *world) string { return "<r>" + a + w.x + b }
}

const c25Tail = "</a><b><c>2</c></b><b><c>3</c></b></r>"

var c25Calls = []call{
	{func(w *world) string { return xmldot.Get(w.s, "r.a").Str }, func(w *world) string { return w.x }},
	{func(w *world) string { return xmldot.Get(w.s, "r.b.1.c").Str }, func(w *world) string { return "3" }},
	{func(w *world) string { return xmldot.Get(w.s, "r.a.%|@first").Str }, func(w *world) string { return w.x }},
	{func(w *world) string { return xmldot.GetBytes(w.b, "r.b.#.c").String() }, func(w *world) string { return `["2","3"]` }},
	{func(w *world) string { return xmldot.Get(w.s, "r.b.#(c==3).c").Str }, func(w *world) string { return "3" }},
	{func(w *world) string { return wr(xmldot.Set(w.s, "r.a", "v")) }, func(w *world) string { return `<r><a k="1">v` + c25Tail }},
	{func(w *world) string {
		o, err := xmldot.SetBytes(w.b, "r.a.@k", "v")
		return wr(string(o), err)
	}, doc(`<a k="v">`, c25Tail)},
	{func(w *world) string { return wr(xmldot.Delete(w.s, "r.b")) }, doc(`<a k="1">`, "</a><b><c>3</c></b></r>")},
	{func(w *world) string { return xmldot.GetWithOptions(w.s, "R.A", w.opts).Str }, func(w *world) string { return w.x }},
	{func(w *world) string { return wr(xmldot.SetWithOptions(w.s, "R.A", "v", w.opts)) }, func(w *world) string { return `<r><a k="1">v` + c25Tail }},
	{func(w *world) string { return w.r.Get("b.c").Str + strconv.Itoa(len(w.r.Map())) }, func(w *world) string { return "22" }},
	{func(w *world) string { return strconv.FormatBool(xmldot.ValidBytes(w.b)) }, func(w *world) string { return "true" }},
	{func(w *world) string {
		return wr(xmldot.SetMany(w.s, []string{"r.a", "r.b.0.c"}, []interface{}{"v", 7}))
	}, func(w *world) string { return `<r><a k="1">v</a><b><c>7</c></b><b><c>3</c></b></r>` }},
	{func(w *world) string { return wr(xmldot.DeleteMany(w.s, "r.b", "r.a.@k")) }, doc(`<a>`, "</a><b><c>3</c></b></r>")},
	{func(w *world) string { return xmldot.Get(w.s, "**.c|@reverse|@sort|@last").Str }, func(w *world) string { return "3" }},
	{func(w *world) string { return xmldot.Get(w.s, "r.a").Str + xmldot.Get(w.s, "r.a.@k").Str }, func(w *world) string { return w.x + "1" }},
	{func(w *world) string { return wr(xmldot.SetRaw(w.s, "r.a", "<n>"+w.x+"</n>")) }, doc(`<a k="1"><n>`, "</n>"+c25Tail)},
	{func(w *world) string { return wr(xmldot.Set(w.s, "r.n.m", w.x+"<&")) }, func(w *world) string {
		return `<r><a k="1">` + w.x + "</a><b><c>2</c></b><b><c>3</c></b><n><m>" + w.x + "&lt;&amp;</m></n></r>"
	}},
	{func(w *world) string { return wr(xmldot.Set(w.s, "r.b.-1", 1.5)) }, doc(`<a k="1">`, "</a><b><c>2</c></b><b><c>3</c></b><b>1.5</b></r>")},
	{func(w *world) string {
		o, err := xmldot.DeleteBytesWithOptions(w.b, "R.A.@K", w.opts)
		return wr(string(o), err)
	}, doc(`<a>`, c25Tail)},
	{func(w *world) string {
		m := w.r.MapWithOptions(w.opts)
		g := w.r.GetMany("a", "b.c")
		t := m["a"].Str + g[1].Str
		w.r.ForEach(func(i int, v xmldot.Result) bool { t += v.Raw[:2]; return true })
		return t
	}, func(w *world) string { return w.x + "2<a" }},
	{func(w *world) string {
		e := xmldot.ValidateWithError(w.s + "<z")
		if e == nil {
			return "valid"
		}
		return strconv.Itoa(e.Line) + strconv.FormatBool(xmldot.Valid("<!DOCTYPE r>"+w.s))
	}, func(w *world) string { return "1true" }},
	{func(w *world) string {
		return xmldot.Get("<r>&amp;<!--c--><a>&lt;"+w.x+"</a></r>", "r.%").Str
	}, func(w *world) string { return "&" }},
	{func(w *world) string { return xmldot.Get("<r>  <a>"+w.x+"</a> </r>", "r|@ugly").String() }, func(w *world) string { return w.x }},
	{func(w *world) string { return xmldot.Get(w.s, "r.b|@pretty").String() }, func(w *world) string { return "2" }},
	{func(w *world) string {
		g := xmldot.GetMany(w.s, "r.b.#", "r.*.c", "r.b.#(c>2)#.c")
		return g[0].Str + g[1].String() + g[2].String()
	}, func(w *world) string { return `2["2","3"]3` }},
}

func c25Switches() int {
	if vThorough() {
		return 5
	}
	return 3
}

func c25Pair(w *world, i, j int) {
	var a, b string
	vPar(c25Switches(), func() { a = c25Calls[i].do(w) }, func() { b = c25Calls[j].do(w) })
	vAssert(a == c25Calls[i].want(w), "the first call returns what it returns alone")
	vAssert(b == c25Calls[j].want(w), "the second call returns what it returns alone")
	vAssert(c25Calls[i].do(w) == c25Calls[i].want(w) && c25Calls[j].do(w) == c25Calls[j].want(w), "later calls are not affected")
	vAssert(string(w.b) == w.s, "the shared document is unchanged")
	vObs(a)
	vObs(b)
}

// Every two calls, with nothing cached or one of the paths known.
//
//verif:run C25 quick budget=200
func hC25Calls() {
	w := newWorld()
	w.r = xmldot.Get(w.s, "r")
	n := len(c25Calls)
	i := vChoice(n)
	j := i + vChoice(n-i)
	if vChoice(2) == 1 {
		vAssert(c25Calls[j].do(w) == c25Calls[j].want(w), "alone")
	}
	c25Pair(w, i, j)
}

// Both calls start with a path cache that is full or about to be.
//
//verif:run C25 quick budget=100 steps=100000000
func hC25Full() {
	w := newWorld()
	n := 254 + vChoice(3)
	for i := 0; i < n; i++ {
		xmldot.Get("<q/>", "q"+strconv.Itoa(i))
	}
	w.r = xmldot.Get(w.s, "q0")
	i := []int{0, 5, 15}[vChoice(3)]
	j := []int{0, 1, 8}[vChoice(3)]
	c25Pair(w, i, j)
}

type tagger struct{ tag string }

func (t tagger) Apply(r xmldot.Result) xmldot.Result { r.Str += t.tag; return r }
func (t tagger) Name() string                        { return t.tag }

func tagOf(m xmldot.Modifier) string {
	if m == nil {
		return "-"
	}
	return m.Name()
}

// Two registrations of one name: one of them wins.
//
//verif:run C25 quick
func hC25RegisterTwice() {
	defer xmldot.UnregisterModifier("vm")
	var e1, e2 error
	vPar(100, func() { e1 = xmldot.RegisterModifier("vm", tagger{"A"}) }, func() { e2 = xmldot.RegisterModifier("vm", tagger{"B"}) })
	vAssert((e1 == nil) != (e2 == nil), "exactly one registration succeeds")
	want := "A"
	if e2 == nil {
		want = "B"
	}
	vAssert(tagOf(xmldot.GetModifier("vm")) == want, "the successful registration is in effect")
	vObs(want)
}

// Two registrations of different names: both count.
//
//verif:run C25 quick
func hC25RegisterBoth() {
	defer xmldot.UnregisterModifier("vm")
	defer xmldot.UnregisterModifier("vn")
	var e1, e2 error
	vPar(100, func() { e1 = xmldot.RegisterModifier("vm", tagger{"A"}) }, func() { e2 = xmldot.RegisterModifier("vn", tagger{"B"}) })
	vAssert(e1 == nil && e2 == nil, "both registrations succeed")
	vAssert(tagOf(xmldot.GetModifier("vm")) == "A" && tagOf(xmldot.GetModifier("vn")) == "B", "both registrations are in effect")
	e3 := xmldot.UnregisterModifier("vm")
	vAssert(e3 == nil && xmldot.GetModifier("vm") == nil && xmldot.GetModifier("vn") != nil, "only the named modifier is removed")
}

// A query runs while its modifier is registered or removed.
//
//verif:run C25 quick
func hC25RegisterQuery() {
	defer xmldot.UnregisterModifier("vm")
	w := newWorld()
	remove := vBool()
	before, after := "", w.x+"A"
	if remove {
		vAssert(xmldot.RegisterModifier("vm", tagger{"A"}) == nil, "registered")
		before, after = after, before
	}
	p := []string{"r.a|@vm", "r.a|@first|@vm", "r.a|@vm|@first", "r.a|@vm|@vm"}[vChoice(4)]
	var got string
	var err error
	vPar(100, func() {
		if remove {
			err = xmldot.UnregisterModifier("vm")
		} else {
			err = xmldot.RegisterModifier("vm", tagger{"A"})
		}
	}, func() { got = xmldot.Get(w.s, p).Str })
	vAssert(err == nil, "the registry call succeeds")
	if p == "r.a|@vm|@vm" {
		vAssert(got == "" || got == w.x+"AA", "the query sees the registry before or after each lookup")
	} else {
		vAssert(got == before || got == after, "the query sees the registry before or after")
	}
	vObs(got)
}

// Removal and registration of one name.
//
//verif:run C25 quick
func hC25Replace() {
	defer xmldot.UnregisterModifier("vm")
	vAssert(xmldot.RegisterModifier("vm", tagger{"A"}) == nil, "registered")
	var e1, e2 error
	vPar(100, func() { e1 = xmldot.UnregisterModifier("vm") }, func() { e2 = xmldot.RegisterModifier("vm", tagger{"B"}) })
	vAssert(e1 == nil, "removal succeeds")
	got := tagOf(xmldot.GetModifier("vm"))
	if e2 == nil {
		vAssert(got == "B", "registered after the removal")
	} else {
		vAssert(got == "-", "refused before the removal")
	}
	vObs(got)
}

// A modifier may itself use the package, also while another goroutine changes the registry.
//
//verif:run C25 quick
func hC25Reentrant() {
	defer xmldot.UnregisterModifier("vm")
	defer xmldot.UnregisterModifier("vn")
	w := newWorld()
	kind := vChoice(4)
	m := xmldot.NewModifierFunc("vm", func(r xmldot.Result) xmldot.Result {
		switch kind {
		case 0:
			r.Str = xmldot.Get(w.s, "r.b.c").Str
		case 1:
			r.Str = xmldot.Get(w.s, "r.*|@last").Get("c").Str
		case 2:
			r.Str = strconv.FormatBool(xmldot.GetModifier("first") != nil)
		case 3:
			xmldot.UnregisterModifier("vk")
			r.Str = strconv.FormatBool(xmldot.RegisterModifier("vk", tagger{"K"}) == nil)
			xmldot.UnregisterModifier("vk")
		}
		return r
	})
	vAssert(xmldot.RegisterModifier("vm", m) == nil, "registered")
	want := []string{"2", "3", "true", "true"}[kind]
	var got, other string
	vPar(2*c25Switches(), func() { got = xmldot.Get(w.s, "r.a|@vm").Str }, func() {
		other = errName(xmldot.RegisterModifier("vn", tagger{"A"})) + xmldot.Get(w.s, "r.a|@vn").Str
	})
	vAssert(got == want, "the modifier's own calls work")
	vAssert(other == "ok"+w.x+"A", "a registration is seen by the next call")
	vObs(got)
}
