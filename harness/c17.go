package main

import "github.com/netascode/xmldot"

// c17Doc has names in both cases, several like-named elements and attributes.
const c17Doc = "<r><a k='1'><b>1</b></a><A K='2'/><a.b>3</a.b><a k='4'><b>5</b><b>6</b></a></r>"

// everything a path can do: query, case-insensitive query, write, append, delete.
func outcomes(s, p string) []string {
	r := xmldot.Get(s, p)
	f := xmldot.GetWithOptions(s, p, foldOptions())
	w, err := xmldot.Set(s, p, "V")
	d, err2 := xmldot.Delete(s, p)
	return []string{shown(r), shown(f), w, errName(err), d, errName(err2)}
}

func errName(err error) string {
	switch {
	case err == nil:
		return "ok"
	case sentinel(err) == xmldot.ErrMalformedXML:
		return "malformed"
	case sentinel(err) == xmldot.ErrInvalidPath:
		return "path"
	case sentinel(err) == xmldot.ErrInvalidValue:
		return "value"
	}
	return "other"
}

// shown is the complete visible content of a result.
func shown(r xmldot.Result) string {
	t := itoa(int(r.Type)) + "|" + r.Str + "|" + r.Raw + "|" + itoa(len(r.Results))
	for _, x := range r.Results {
		t += "," + shown(x)
	}
	return t
}

func sameTexts(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// disturb does other things with the same and other paths.
func disturb(s, p string, k int) {
	switch k {
	case 0:
		xmldot.GetWithOptions(s, p, foldOptions())
		xmldot.SetWithOptions(s, p, "x", foldOptions())
		xmldot.DeleteBytesWithOptions([]byte(s), p, foldOptions())
	case 1:
		xmldot.Set(s, p, "x")
		xmldot.SetRaw(s, p, "<q/>")
		xmldot.Set(s, p+".-1", "x")
		xmldot.Delete(s, p)
	case 2:
		xmldot.Get("<broken", p)
		xmldot.Set("<broken", p, "x")
		xmldot.Set(s, p, struct{}{})
		xmldot.Get("", p)
	case 3:
		for i := 0; i < 260; i++ {
			xmldot.Get("<x/>", "n"+itoa(i))
		}
	case 4:
		xmldot.Get(s, p+"|@reverse")
		xmldot.Get(s, p+"|@first|@nope")
		xmldot.Get(s, "r.*|@sort")
	}
}

// A path of n symbolic characters means the same before and after other calls.
//
//verif:run C17 n=0..4 quick steps=40000000
func hC17Same(n int) {
	p := "r." + vStrIn(4, "aAb.@k#1")
	want := outcomes(c17Doc, p)
	disturb(c17Doc, p, n)
	vAssert(sameTexts(outcomes(c17Doc, p), want), "a path means the same after other calls")
	vObs(want[0])
}

//verif:run C17 n=0..4 thorough budget=600 steps=40000000
func hC17SameDeep(n int) {
	p := "r." + vStrIn(4, "aAb.@k#*1\\|")
	want := outcomes(c17Doc, p)
	disturb(c17Doc, p, n)
	vAssert(sameTexts(outcomes(c17Doc, p), want), "a path means the same after other calls")
	vObs(want[0])
}

// A path means the same whichever other path was met before it.
//
//verif:run C17 n=0..5 quick steps=40000000
func hC17Pair(n int) {
	few := "aA.\\@#|"
	p, q := vStrIn(2, few), ""
	switch n {
	case 0:
		q = p + vStrIn(1, few)
	case 1:
		q = vStrIn(1, few) + p
	case 2:
		q = p[:1] + vStrIn(1, few) + p[1:]
	case 3:
		q = vStrIn(2, few)
	case 4:
		q = p + " "
	case 5:
		q = "a." + p
		p = "A." + p
	}
	p, q = "r.a"+p, "r.a"+q
	const s = "<r><a k='1'>1<b>1</b></a><a.>2</a.><aA>3</aA><a\\>4</a\\><A>5</A></r>"
	want := shown(xmldot.Get(s, p))
	for i := 0; i < 258; i++ {
		xmldot.Get("<x/>", "n"+itoa(i))
	}
	xmldot.Get(s, q)
	xmldot.Set(s, q, "1")
	vAssert(shown(xmldot.Get(s, p)) == want, "a path means the same after other paths")
	vObs(want)
}

var c17Paths = []string{"r.a", "R.A", "r.A.@K", "r.a.-1", "r.a.1.b", "r.a.#.b", "r.a.#.@k", "r.a.#(b==5)", "r.a.#(B==5)#.b", "r.*|@reverse", "r.*|@sort|@first", "r.a.1|@reverse", "**.b", "r.a\\.b", "r.a.b.-1", "r.a.#", "r.x.y", "r.A.#.@K|@last", "r.a|@nope", "r.#(k)#"}

// The same for every kind of path step, whichever call meets the path first, in
// documents with symbolic names and text.
//
//verif:run C17 n=0..19 quick steps=40000000
func hC17First(n int) {
	t := &tmpl{names: "aAb", tlen: 1}
	s := t.expand("<r><{1} k='1'><b>5</b></{1}><A {3}='2'/><a.b>3</a.b><{2} k='4'><{3}>5</{3}><b>6</b></{2}></r>")
	p := c17Paths[n]
	q := p + "." // the same path with an empty segment, not met before
	if p[len(p)-1] == '1' {
		q = "." + p
	}
	disturb(s, p, vChoice(5))
	vAssert(sameTexts(outcomes(s, p), outcomes(s, q)), "path "+p+" means the same whichever call met it first")
	vAssert(sameTexts(outcomes(s, q), outcomes(s, p)), "path "+p+" keeps its meaning")
}

func esc(n string) string {
	out := ""
	for i := 0; i < len(n); i++ {
		if n[i] == '.' || n[i] == '\\' {
			out += "\\"
		}
		out += n[i : i+1]
	}
	return out
}

// escAll puts a backslash before every character.
func escAll(n string) string {
	out := ""
	for i := 0; i < len(n); i++ {
		out += "\\" + n[i:i+1]
	}
	return out
}

// Every element and attribute name of n+1 characters can be addressed.
//
//verif:run C17 n=0..4 quick
//verif:run C17 n=5..6 thorough budget=200
func hC17Escape(n int) {
	nm := string([]byte{vByteIn("abzZ_")}) + vStrIn(n, "a.-_9Z")
	s := "<r><x/><" + nm + " " + nm + "='1'>2</" + nm + "><y/></r>"
	for _, e := range []string{esc(nm), escAll(nm)} {
		g := xmldot.Get(s, "r."+e)
		vAssert(g.Type == xmldot.Element && g.Str == "2", "an escaped name finds its element")
		g = xmldot.Get(s, "r."+e+".@"+e)
		vAssert(g.Type == xmldot.Attribute && g.Str == "1", "an escaped name finds its attribute")
		w, err := xmldot.Set(s, "r."+e, "3")
		vAssert(err == nil && w == "<r><x/><"+nm+" "+nm+"='1'>3</"+nm+"><y/></r>", "an escaped name writes its element")
		w, err = xmldot.Delete(s, "r."+e)
		vAssert(err == nil && w == "<r><x/><y/></r>", "an escaped name deletes its element")
		w, err = xmldot.Set("<r/>", "r."+e+".z", "3")
		vAssert(err == nil && w == "<r><"+nm+"><z>3</z></"+nm+"></r>", "an escaped name creates its element")
	}
}

// A name that differs in one symbolic character is not found.
//
//verif:run C17 n=1..3 quick
func hC17Other(n int) {
	nm := "a" + vStrIn(n, "a.b-")
	q := "a" + vStrIn(n, "a.b-")
	s := "<r><" + nm + ">2</" + nm + "></r>"
	g := xmldot.Get(s, "r."+esc(q))
	vAssert(g.Exists() == (nm == q), "an escaped name finds only its element")
}

// Empty segments are ignored wherever they are.
//
//verif:run C17 n=1..4 quick
//verif:run C17 n=5..6 thorough budget=200
func hC17Empty(n int) {
	dots := func() string {
		k := vChoice(n)
		return ".........."[:k]
	}
	p := dots() + "r." + dots() + "a." + dots() + "b" + dots()
	vAssert(sameTexts(outcomes(c17Doc, p), outcomes(c17Doc, "r.a.b")), "empty segments are ignored")
}

// A filter without closing marker or condition is ignored like an empty
// segment; an invalid condition makes the path match nothing.
//
//verif:run C17 n=0..3 quick
//verif:run C17 n=4 thorough budget=200
func hC17Filter(n int) {
	c := vStr(n)
	for i := 0; i < n; i++ {
		vAssume(c[i] != '(' && c[i] != ')' && c[i] != '.' && c[i] != '|' && c[i] != '\\')
	}
	vAssert(sameTexts(outcomes(c17Doc, "r.a.#("+c), outcomes(c17Doc, "r.a")), "an unclosed filter is ignored")
	p := "r.a.#(" + c + ")"
	if n > 0 && !c17Condition(c) {
		vAssert(!xmldot.Get(c17Doc, p).Exists(), "an invalid condition matches nothing")
		vAssert(!xmldot.Get(c17Doc, p+"#.b").Exists(), "an invalid condition matches nothing")
		w, err := xmldot.Set(c17Doc, p, "V")
		vAssert(err != nil && w == c17Doc && sentinel(err) == xmldot.ErrInvalidPath, "an invalid condition is refused by Set")
		vReach("invalid")
	}
	if n == 0 {
		vAssert(sameTexts(outcomes(c17Doc, p), outcomes(c17Doc, "r.a")), "an empty filter is ignored")
	}
}

// c17Condition: the condition has text, and an operator only with both sides.
func c17Condition(c string) bool {
	l, r := 0, len(c)
	for l < r && c[l] == ' ' {
		l++
	}
	for r > l && c[r-1] == ' ' {
		r--
	}
	c = c[l:r]
	if c == "" {
		return false
	}
	for i := 0; i < len(c); i++ {
		two := ""
		if i+1 < len(c) {
			two = c[i : i+2]
		}
		if i == 0 && (c[i] == '<' || c[i] == '>' || c[i] == '%' || two == "==" || two == "!=" || two == "!%") {
			return false
		}
	}
	return true
}

// Up to 100 segments are followed, more match nothing.
//
//verif:run C17 quick
func hC17Long() {
	n := 97 + vChoice(6)
	s, e, p := "", "", ""
	for i := 0; i < 95; i++ {
		s += "<a>"
		e += "</a>"
		p += "a."
	}
	s += "x" + e
	for i := 95; i < n-1; i++ {
		p += "."
	}
	r := xmldot.Get(s, p)
	if n <= 100 {
		vAssert(r.Str == "x", "up to 100 segments are followed")
	} else {
		vAssert(!r.Exists(), "more than 100 segments match nothing")
		_, err := xmldot.Set(s, p, "y")
		vAssert(sentinel(err) == xmldot.ErrInvalidPath, "more than 100 segments are refused by Set")
	}
}
