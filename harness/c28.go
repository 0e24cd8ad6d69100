package main

import (
	"github.com/netascode/xmldot"
)

// refUgly is s, well-formed, without the white space that lies outside tags,
// comments, CDATA sections and processing instructions.
func refUgly(s string) string {
	out := ""
	i := 0
	for i < len(s) {
		if s[i] != '<' {
			if !isWS(s[i]) {
				out += s[i : i+1]
			}
			i++
			continue
		}
		e := i + 1
		if s[e] == '!' || s[e] == '?' {
			e = miscEnd(s, i)
		} else {
			var q byte
			for q != 0 || s[e] != '>' {
				if q == 0 && (s[e] == '"' || s[e] == '\'') {
					q = s[e]
				} else if s[e] == q {
					q = 0
				}
				e++
			}
			e++
		}
		out += s[i:e]
		i = e
	}
	return out
}

func checkUgly(s string) {
	d := refParse(s)
	vAssume(d.ok && len(d.roots) == 1)
	n := d.roots[0]
	plain := xmldot.Get(s, n.name)
	got := xmldot.Get(s, n.name+"|@ugly")
	want := refUgly(s[n.openEnd:n.close])
	vAssert(got.Raw == want, "@ugly removes exactly the white space outside markup")
	vAssert(got.Type == plain.Type && got.Str == plain.Str, "@ugly changes the raw text only")
	vAssert(xmldot.Get(s, n.name+"|@ugly|@ugly").Raw == want, "@ugly twice is @ugly")
	vObs(shown(got))
}

// Any well-formed content of one element.
//
//verif:run C28 n=0..4 quick
//verif:run C28 n=5..7 thorough budget=1200
func hC28Ugly(n int) {
	checkUgly("<r>" + vStr(n) + "</r>")
}

// Markup of every kind, with white space around and inside.
//
//verif:run C28 quick
//verif:run C28 thorough repeat=2 budget=1200
func hC28UglyShape() {
	t := &tmpl{names: "ab", tlen: 2}
	if vThorough() {
		t.tlen = 4
	}
	s := t.expand([]string{
		"<r><b a=\"{v}\"/>{t}<c>{t}</c></r>",
		"<r><b a='{q}'{s}b=\"{v}\" />{s}</r>",
		"<r>{s}<!--{c}-{c}-->{t}</r>",
		"<r>{t}<!--{c}-->{s}<b k='{q}' /></r>",
		"<r>{t}<![CDATA[{d}]{d}]]>{t}</r>",
		"<r>{s}<?p{p}?>{t}</r>",
		"<r><{1} k = \"{v}\">{t}</{1} >{s}</r>",
		"<r><b/>{s}<![CDATA[{d}]]>{s}<!--{c}-->{s}</r>",
	}[vChoice(8)])
	checkUgly(s)
}

// oneEnd is s with every line end written as a newline.
func oneEnd(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '\r' {
			out += s[i : i+1]
		} else if i+1 == len(s) || s[i+1] != '\n' {
			out += "\n"
		}
	}
	return out
}

// refTree shows the elements, attributes and texts at and below n, without the
// white space around texts.
func refTree(s string, n *rnode) string {
	out := "<" + n.name
	for _, a := range n.attrs {
		out += " " + a.name + "=" + refUnescape(a.val)
	}
	out += ">"
	for _, t := range n.text {
		i, j := t.from, t.to
		for i < j && isWS(s[i]) {
			i++
		}
		for i < j && isWS(s[j-1]) {
			j--
		}
		if i < j {
			out += "'" + refUnescape(oneEnd(s[i:j])) + "'"
		}
	}
	for _, k := range n.kids {
		out += refTree(s, k)
	}
	return out + "</>"
}

func blankText(s string, n *rnode) bool {
	for _, t := range n.text {
		for i := t.from; i < t.to; i++ {
			if !isWS(s[i]) {
				return false
			}
		}
	}
	return true
}

// laidOut reports whether every element below n that holds elements only has
// them on lines of their own, indented two spaces per level.
func laidOut(s string, n *rnode, indent string) bool {
	if len(n.kids) == 0 || !blankText(s, n) || len(n.misc) > 0 {
		return true
	}
	at := n.openEnd
	for i, k := range n.kids {
		gap := "\n" + indent
		if i == 0 && n.parent == nil {
			gap = ""
		}
		if s[at:k.start] != gap || !laidOut(s, k, indent+"  ") {
			return false
		}
		at = k.end
	}
	if n.parent == nil {
		return at == n.close
	}
	return s[at:n.close] == "\n"+indent[2:]
}

func checkPretty(s string) {
	d := refParse(s)
	vAssume(d.ok && len(d.roots) == 1)
	n := d.roots[0]
	plain := xmldot.Get(s, n.name)
	got := xmldot.Get(s, n.name+"|@pretty")
	vAssert(got.Type == plain.Type && got.Str == plain.Str, "@pretty changes the raw text only")
	w := s[:n.openEnd] + got.Raw + s[n.close:]
	o := refParse(w)
	vAssert(o.ok && len(o.roots) == 1, "@pretty gives well-formed content")
	vAssert(refTree(w, o.roots[0]) == refTree(s, n), "@pretty keeps elements, attributes and texts")
	if got.Raw != plain.Raw {
		vAssert(laidOut(w, o.roots[0], ""), "@pretty indents elements two spaces per level")
	}
	vObs(shown(got))
}

// Layout of nested elements with attributes and texts.
//
//verif:run C28 quick
func hC28PrettyShape() {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand([]string{
		"<r><{1}/><{2}></{2}></r>",
		"<r><{1}><{2}/></{1}>{s}<{3}/></r>",
		"<r k='1'><{1} a='2' b=\"3\">x</{1}></r>",
		"<r>{s}<{1}>{s}x{s}</{1}></r>",
		"<r><{1}>&lt;&amp;&gt;</{1}></r>",
		"<r><a k='&lt;&amp;'/></r>",
		"<r><n:{1} n:{2}='1' xmlns:n='u'><n:{3}/></n:{1}></r>",
		"<r><{1} xmlns='u'><{2}/></{1}></r>",
		"<r><{1}>x<{2}/>y</{1}><!--c--></r>",
		"<r><{1}>\"'&quot;&apos;</{1}><{2} k=\"'&quot;\" b='\"'/></r>",
		"<r><{1}><{2}><{3}>x</{3}></{2}><{4}/></{1}>{s}</r>",
		"<r xmlns:p='u' xmlns:q='v'><{1} p:{2}='1' q:{3}='2' {4}='3'/></r>",
		"<r><p:{1} xmlns:p='u' p:k='1' q:k='2'><p:{2}/><q:{2}/></p:{1}></r>",
	}[vChoice(13)])
	checkPretty(s)
}

// Any text without references, and any attribute value on one line.
//
//verif:run C28 n=1..3 quick
//verif:run C28 n=4..6 thorough budget=900
func hC28PrettyText(n int) {
	x := vStr(n)
	attr := vBool()
	for i := 0; i < n; i++ {
		vAssume(x[i] != '<' && x[i] != '&')
		vAssume(!attr || x[i] != '"' && x[i] != '\n' && x[i] != '\r')
	}
	if attr {
		checkPretty("<r><a k=\"" + x + "\"/></r>")
	} else {
		checkPretty("<r>" + x + "</r>")
	}
}

// Any content without CDATA and character references.
//
//verif:run C28 n=1..4 quick
//verif:run C28 n=5..6 thorough budget=1200
func hC28Pretty(n int) {
	x := vStr(n)
	for i := 0; i+1 < n; i++ {
		vAssume(x[i] != '&' || x[i+1] != '#')
	}
	checkPretty("<r>" + x + "</r>")
}

// Content that does not parse comes back as it is.
//
//verif:run C28 quick
func hC28PrettyIll() {
	raw := []string{"<r><a></r>", "<r", "<r a></r>", "<r>&x;</r>", "<r/><", "x</y>"}[vChoice(6)]
	m := xmldot.GetModifier("pretty")
	r := xmldot.Result{Type: xmldot.Element, Str: "x", Raw: raw}
	got := m.Apply(r)
	vAssert(got.Raw == raw && got.Str == "x" && got.Type == xmldot.Element, "@pretty leaves ill-formed content alone")
	vObs(shown(got))
}
