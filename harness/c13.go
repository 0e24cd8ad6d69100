package main

import "github.com/netascode/xmldot"

// refMatch is the textbook definition of wildcard matching, over characters.
func refMatch(text, pat string) bool { return runeMatch([]rune(text), []rune(pat)) }

func runeMatch(t, p []rune) bool {
	if len(p) == 0 {
		return len(t) == 0
	}
	switch p[0] {
	case '*':
		if runeMatch(t, p[1:]) {
			return true
		}
		return len(t) > 0 && runeMatch(t[1:], p)
	case '?':
		return len(t) > 0 && runeMatch(t[1:], p[1:])
	case '\\':
		if len(p) > 1 {
			p = p[1:]
		}
	}
	return len(t) > 0 && t[0] == p[0] && runeMatch(t[1:], p[1:])
}

// inPath escapes a pattern for use in a path.
func inPath(p string) string {
	out := ""
	for i := 0; i < len(p); i++ {
		if p[i] == '\\' {
			out += "\\"
		}
		out += p[i : i+1]
	}
	return out
}

func checkMatch(text, pat string) {
	s := "<r><a k=\"" + text + "\">1</a><a>2</a></r>"
	want := refMatch(text, pat)
	r := xmldot.Get(s, "r.a.#(@k%'"+inPath(pat)+"')")
	vAssert(r.Exists() == want && (!want || r.Str == "1"), "% selects iff the whole text matches the pattern")
	r = xmldot.Get(s, "r.a.#(@k!%'"+inPath(pat)+"')#")
	vAssert(r.Exists() == !want, "!% is the negation of %")
	vAssert(want || len(r.Array()) == 1 && r.Array()[0].Str == "1", "an element without the operand is never selected")
	if want {
		vReach("match")
	} else {
		vReach("no match")
	}
}

// Pattern and text over a small alphabet with all special characters.
// n is pattern length * 10 + text length.
//
//verif:run C13 n=10..14 quick
//verif:run C13 n=20..24 quick
//verif:run C13 n=30..34 quick
//verif:run C13 n=40..43 quick
//verif:run C13 n=44 thorough budget=300
//verif:run C13 n=50..54 thorough budget=300
//verif:run C13 n=60..63 thorough budget=300
func hC13Match(n int) {
	p := vStrIn(n/10, "ab*?\\")
	t := vStrIn(n%10, "ab*?\\")
	checkMatch(t, p)
}

// Longer texts against patterns with several stars.
//
//verif:run C13 n=0..5 quick
func hC13Stars(n int) {
	p := []string{"*a*b", "a*b*a", "*a?b*", "**a**", "a*?b", "*\\*a*"}[n]
	checkMatch(vStrIn(5, "ab*"), p)
}

//verif:run C13 n=0..5 thorough budget=300
func hC13StarsDeep(n int) {
	p := []string{"*a*b", "a*b*a", "*a?b*", "**a**", "a*?b", "*\\*a*"}[n]
	checkMatch(vStrIn(8, "ab*"), p)
}

// Any printable bytes.
//
//verif:run C13 n=1..3 quick
//verif:run C13 n=4 thorough budget=200
func hC13Bytes(n int) {
	p, t := vStr(n), vStr(2)
	for i := 0; i < n; i++ {
		c := p[i]
		vAssume(c > ' ' && c < 0x7f && c != '\'' && c != '"' && c != '(' && c != ')' && c != '=' && c != '!' && c != '<' && c != '>' && c != '%')
	}
	for i := 0; i < len(t); i++ {
		c := t[i]
		vAssume(c > ' ' && c < 0x7f && c != '"' && c != '&')
	}
	checkMatch(t, p)
}

// Characters of several bytes count as one.
//
//verif:run C13 quick
func hC13Runes() {
	pieces := []string{"a", "é", "世", "\U0001F44B"}
	t := pieces[vChoice(4)] + pieces[vChoice(4)]
	p := []string{"?", "*", "é", "世"}
	checkMatch(t, p[vChoice(4)]+p[vChoice(4)])
}

// A comparison over the complexity limit selects nothing, one within it decides.
//
//verif:run C13 quick
func hC13Limit() {
	pat, text := "", ""
	for i := 0; i < 99; i++ {
		pat += "*"
	}
	for i := 0; i < 99; i++ {
		text += "a"
	}
	c := vByteIn("ab")
	pat += "a"
	in := text + string([]byte{c})         // 100 * 100 steps
	over := text + string([]byte{c}) + "a" // 101 * 100 steps
	s := "<r><a k='" + in + "'>1</a></r>"
	vAssert(xmldot.Get(s, "r.a.#(@k%'"+pat+"')").Exists() == (c == 'a'), "decided within the limit")
	vAssert(xmldot.Get(s, "r.a.#(@k!%'"+pat+"')").Exists() == (c != 'a'), "decided within the limit")
	s = "<r><a k='" + over + "'>1</a></r>"
	vAssert(!xmldot.Get(s, "r.a.#(@k%'"+pat+"')").Exists(), "nothing is selected over the limit")
	vAssert(!xmldot.Get(s, "r.a.#(@k!%'"+pat+"')").Exists(), "nothing is selected over the limit")
}
