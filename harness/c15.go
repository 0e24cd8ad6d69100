package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// Reference modifiers on results.

func isNum(t string) bool { _, _, ok := refNum(t); return ok }

func refSort(l []xmldot.Result) []xmldot.Result {
	nums := true
	for _, x := range l {
		nums = nums && x.Type != xmldot.Array && (x.Type == xmldot.Number || isNum(x.Str))
	}
	less := func(a, b xmldot.Result) bool {
		if !nums {
			return a.String() < b.String()
		}
		m1, e1, _ := refNum(a.Str)
		m2, e2, _ := refNum(b.Str)
		return cmpNum(m1, e1, m2, e2) < 0
	}
	var out []xmldot.Result
	for _, x := range l {
		i := len(out)
		for i > 0 && less(x, out[i-1]) {
			i--
		}
		out = append(out, xmldot.Result{})
		copy(out[i+1:], out[i:])
		out[i] = x
	}
	return out
}

func refMod(r xmldot.Result, m string) xmldot.Result {
	if r.Type == xmldot.Null {
		return r
	}
	l := r.Results
	switch m {
	case "reverse":
		if r.Type == xmldot.Array {
			var o []xmldot.Result
			for i := len(l) - 1; i >= 0; i-- {
				o = append(o, l[i])
			}
			return xmldot.Result{Type: xmldot.Array, Results: o}
		}
		return r
	case "sort":
		if r.Type == xmldot.Array {
			return xmldot.Result{Type: xmldot.Array, Results: refSort(l)}
		}
		return r
	case "first":
		if r.Type == xmldot.Array && len(l) > 0 {
			return l[0]
		}
		return r
	case "last":
		if r.Type == xmldot.Array && len(l) > 0 {
			return l[len(l)-1]
		}
		return r
	case "flatten":
		if r.Type == xmldot.Array {
			var o []xmldot.Result
			for _, x := range l {
				if x.Type == xmldot.Array {
					o = append(o, x.Results...)
				} else {
					o = append(o, x)
				}
			}
			if len(o) == 0 {
				return xmldot.Result{}
			}
			return xmldot.Result{Type: xmldot.Array, Results: o}
		}
		return r
	case "twice":
		return twice(r)
	}
	return xmldot.Result{}
}

// twice is the custom modifier: every text doubled.
func twice(r xmldot.Result) xmldot.Result {
	r.Str += r.Str
	var l []xmldot.Result
	for _, x := range r.Results {
		l = append(l, twice(x))
	}
	r.Results = l
	return r
}

// eqResult compares everything a user can see in a result.
func eqResult(a, b xmldot.Result) bool {
	if a.Type != b.Type || a.Str != b.Str || a.Raw != b.Raw || a.Num != b.Num || len(a.Results) != len(b.Results) {
		return false
	}
	for i := range a.Results {
		if !eqResult(a.Results[i], b.Results[i]) {
			return false
		}
	}
	return true
}

func obsResult(r xmldot.Result) {
	vObsInt(int(r.Type))
	vObs(r.Str)
	vObsInt(len(r.Results))
}

var c15Mods = []string{"reverse", "sort", "first", "last", "flatten", "twice", "nope"}

var c15Bases = []string{"r.*", "r.a.#.%", "r.a.#.@k", "r.a", "r.a.#", "r.z", "r.a.#(@k)#", "r.b.#.c", "**.a", "r.a.0.%", "r.a.@k"}

// checkMods compares base|@m1|@m2... with the reference applied to Get(base).
func checkMods(s, base string, mods []string) {
	p := base
	want := xmldot.Get(s, base)
	for _, m := range mods {
		p += "|@" + m
		want = refMod(want, m)
	}
	got := xmldot.Get(s, p)
	vAssert(eqResult(got, want), "Get "+p+" equals the modifiers applied to Get "+base)
	vAssert(eqResult(xmldot.GetWithOptions(s, p, xmldot.DefaultOptions()), want), "the same with options")
	obsResult(want)
}

func c15Custom() {
	err := xmldot.RegisterModifier("twice", xmldot.NewModifierFunc("twice", twice))
	vAssert(err == nil, "a custom modifier can be registered")
}

// Every chain of up to three modifiers on every kind of result.
//
//verif:run C15 n=0..10 quick
func hC15Chain(n int) {
	c15Custom()
	defer xmldot.UnregisterModifier("twice")
	t := vStrIn(1, "ab")
	u := vStrIn(1, "ab")
	s := "<r><a k='2'>b" + t + "</a><a>" + u + "</a><a k=\"10\">" + t + "</a><b><c>x</c></b></r>"
	k := vChoice(3) + 1
	var mods []string
	for i := 0; i < k; i++ {
		mods = append(mods, c15Mods[vChoice(len(c15Mods))])
	}
	checkMods(s, c15Bases[n], mods)
}

// distinctValues: texts that are numbers of the same value are the same text.
func distinctValues(l []string) bool {
	for i := range l {
		for j := 0; j < i; j++ {
			m1, e1, ok1 := refNum(l[i])
			m2, e2, ok2 := refNum(l[j])
			if ok1 && ok2 && l[i] != l[j] && cmpNum(m1, e1, m2, e2) == 0 {
				return false
			}
		}
	}
	return true
}

// Sorting three texts of up to n symbolic characters.
//
//verif:run C15 n=1..2 quick
//verif:run C15 n=3 thorough budget=300
func hC15Sort(n int) {
	x, y, z := vStrIn(n, "09.-a"), vStrIn(n, "09.-a"), vStrIn(1, "19a")
	vAssume(distinctValues([]string{x, y, z}))
	s := "<r><a>" + x + "</a><a>" + y + "</a><a>" + z + "</a></r>"
	for _, m := range []string{"sort", "reverse", "first", "last"} {
		checkMods(s, "r.*", []string{m})
	}
	checkMods(s, "r.a.#.%", []string{"sort", "last"})
	checkMods(s, "r.a.#.%", []string{"sort", "reverse"})
}

// Arbitrary bytes sort by text.
//
//verif:run C15 n=1..2 quick
//verif:run C15 n=3 thorough budget=300
func hC15SortText(n int) {
	x, y := vStr(n), vStr(n)
	for i := 0; i < n; i++ {
		vAssume(x[i] > ' ' && x[i] != '<' && x[i] != '&' && y[i] > ' ' && y[i] != '<' && y[i] != '&')
	}
	s := "<r><a>q</a><a>" + x + "</a><a>" + y + "</a></r>"
	x, y = strings.TrimSpace(x), strings.TrimSpace(y)
	r := xmldot.Get(s, "r.*|@sort").Array()
	vAssert(len(r) == 3, "sorting keeps every value")
	vAssert(r[0].Str <= r[1].Str && r[1].Str <= r[2].Str, "values are in text order")
	n1 := 0
	for _, v := range r {
		if v.Str == x {
			n1++
		}
	}
	want := 1
	if x == y {
		want++
	}
	if x == "q" {
		want++
	}
	vAssert(n1 == want, "sorting keeps every value")
}

// A modifier applied directly leaves the source result untouched.
//
//verif:run C15 quick
func hC15Source() {
	t := vStrIn(3, "ab1")
	s := "<r><a>" + t[:1] + "</a><a>" + t[1:2] + "</a><a>" + t[2:] + "</a></r>"
	r := xmldot.Get(s, "r.*")
	before := append([]xmldot.Result{}, r.Results...)
	for _, m := range []string{"reverse", "sort", "first", "last", "flatten"} {
		mod := xmldot.GetModifier(m)
		vAssert(mod != nil && mod.Name() == m, "built-in modifiers are registered")
		got := mod.Apply(r)
		vAssert(eqResult(got, refMod(r, m)), "Apply equals the reference modifier")
		for i := range before {
			vAssert(eqResult(before[i], r.Results[i]), "the source result is untouched")
		}
	}
	nested := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{r, r.Results[0], {Type: xmldot.Array, Results: []xmldot.Result{r}}}}
	got := xmldot.GetModifier("flatten").Apply(nested)
	vAssert(eqResult(got, refMod(nested, "flatten")), "flatten unpacks one level")
	vAssert(len(nested.Results) == 3 && eqResult(nested.Results[0], r), "the source result is untouched")
	obsResult(got)
}

// Chains up to the limit work, longer ones give nothing.
//
//verif:run C15 quick
func hC15Limit() {
	n := vChoice(25)
	p := "r.*"
	for i := 0; i < n; i++ {
		p += "|@reverse"
	}
	r := xmldot.Get("<r><a>1</a><a>2</a></r>", p)
	if n > 20 {
		vAssert(!r.Exists(), "a chain longer than the limit gives a non-existing result")
		return
	}
	vAssert(len(r.Results) == 2 && r.Results[n%2].Str == "1", "every modifier of the chain is applied")
}

// Registering, shadowing and removing modifiers.
//
//verif:run C15 n=1..4 quick
func hC15Registry(n int) {
	name := vStr(n)
	for i := 0; i < n; i++ {
		vAssume(name[i] > ' ' && name[i] < 0x7f && name[i] != '|' && name[i] != '.' && name[i] != '\\')
	}
	calls := 0
	m := xmldot.NewModifierFunc(name, func(r xmldot.Result) xmldot.Result {
		calls++
		r.Str = "<" + r.Str + ">"
		return r
	})
	vAssume(xmldot.GetModifier(name) == nil)
	p := "r|@" + name
	vAssert(!xmldot.Get("<r>x</r>", p).Exists(), "an unknown modifier gives a non-existing result")
	vAssert(xmldot.RegisterModifier(name, m) == nil, "a custom modifier can be registered")
	defer xmldot.UnregisterModifier(name)
	r := xmldot.Get("<r>x</r>", p)
	vAssert(r.Str == "<x>" && calls == 1, "a custom modifier is applied exactly once")
	r = xmldot.Get("<r>x</r>", p+"|@first|@"+name)
	vAssert(r.Str == "<<x>>" && calls == 3, "a custom modifier is applied once per place in the chain")
	vAssert(xmldot.RegisterModifier(name, m) != nil, "a name is registered once")
	vAssert(xmldot.UnregisterModifier(name) == nil, "a custom modifier can be removed")
	vAssert(!xmldot.Get("<r>x</r>", p).Exists() && calls == 3, "a removed modifier gives a non-existing result")
	vAssert(xmldot.RegisterModifier("sort", m) != nil && xmldot.UnregisterModifier("sort") != nil, "built-in modifiers are fixed")
}
