package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// rawKind reports whether raw must be accepted ('y'), refused ('n'), or may be
// either ('?'): processing instructions that do not end in "?>".
func rawKind(raw string) byte {
	x := "<x>" + raw + "</x>"
	d := refParse(x)
	if !d.ok || len(d.roots) != 1 || d.roots[0].end != len(x) {
		return 'n'
	}
	return miscKind(x, d.roots[0])
}

func miscKind(x string, n *rnode) byte {
	k := byte('y')
	for _, m := range n.misc {
		t := x[m.from:m.to]
		switch {
		case hasAt(t, 0, "<!--"):
		case hasAt(t, 0, "<![CDATA["):
			if strings.Contains(t[1:], "<![CDATA[") {
				return 'n'
			}
		case t[1] == '?':
			if t[len(t)-2] != '?' || len(t) < 4 {
				k = '?'
			}
		case len(t) >= 9 && lower(t[:9]) == "<!doctype", len(t) >= 8 && lower(t[:8]) == "<!entity":
			return 'n'
		}
	}
	for _, c := range n.kids {
		r := miscKind(x, c)
		if r == 'n' {
			return 'n'
		}
		if r == '?' {
			k = '?'
		}
	}
	return k
}

type rawTarget struct{ doc, path, pre, post string }

// Where the raw text ends up, verbatim between pre and post.
var c21Targets = []rawTarget{
	{"<r><a k='1'>x</a><b/></r>", "r.a", "<r><a k='1'>", "</a><b/></r>"},
	{"<r><a k='1'>x</a><b/></r>", "r.b", "<r><a k='1'>x</a><b>", "</b></r>"},
	{"<r><a k='1'>x</a><b/></r>", "r.c", "<r><a k='1'>x</a><b/><c>", "</c></r>"},
	{"<r><a>x</a><!--t--></r>", "r.a.-1", "<r><a>x</a><a>", "</a><!--t--></r>"},
	{"<r><a>x</a><a>y</a></r>", "r.a.1", "<r><a>x</a><a>", "</a></r>"},
	{"", "a", "<a>", "</a>"},
	{"<r/>", "r", "<r>", "</r>"},
	{"<r><a/></r>", "r.a.b.c", "<r><a><b><c>", "</c></b></a></r>"},
	{"<r><r><a>1</a></r></r>", "r.r.a", "<r><r><a>", "</a></r></r>"},
}

func checkRaw(t rawTarget, raw string) {
	out, err := xmldot.SetRaw(t.doc, t.path, raw)
	k := rawKind(raw)
	if err != nil {
		vAssert(k != 'y', "SetRaw accepts well-formed content")
		vAssert(sentinel(err) == xmldot.ErrInvalidValue, "other content is ErrInvalidValue")
		vAssert(out == t.doc, "a refused SetRaw returns its input")
		vObs("refused")
		return
	}
	vAssert(k != 'n', "SetRaw refuses content that is not well formed or declares something")
	vAssert(out == t.pre+raw+t.post, "the raw text stands verbatim at the target")
	vAssert(xmldot.Valid(out) && refParse(out).ok, "the result is valid")
	vObs(out)
}

// n arbitrary bytes of raw text.
//
//verif:run C21 n=0..7 quick
//verif:run C21 n=8..9 thorough budget=900
func hC21Full(n int) {
	checkRaw(c21Targets[0], vStr(n))
}

// n bytes that mean something, at every target.
//
//verif:run C21 n=1..6 quick
//verif:run C21 n=7..8 thorough budget=600
func hC21Targets(n int) {
	raw := vStrIn(n, "<ar/>'=! ")
	checkRaw(c21Targets[vChoice(len(c21Targets))], raw)
}

// Raw texts of many shapes around n symbolic bytes.
var c21Shapes = []string{
	"<a>~</a>", "<a~>x</a>", "<a/>~<b></b>", "</a>~<a>", "<a><b>~</b></a>", "<a></a~>", "<!--~-->", "<!--~", "<![CDATA[~]]>", "<![CDATA[~", "<?~?>", "<?~",
	"<a k=\"~\"/>", "<a k='~'></a>", "<a k=~/>", "<!~>", "~</r><r>", "<!--a~<b>-->", "<![CDATA[<b>~]]><b/>", "<a><b></a>~</b>", "x~]]>", "</x>~<x>", "</raw>~<raw>", "<raw>~</raw>", "<!-->~<b>-->",
	"<![CDATA[~<![CDATA[]]>", "<![CDATA[<~![CDATA[x]]>", "<!--~<![CDATA[-->", "<![CDATA[x]]~<![CDATA[y]]>", "<b><![CDATA[x]]><![CDATA[~]]></b>", "<b k='~<![CDATA['/>", "<?a ~<![CDATA[?>",
	"<?a>~<b ?>", "<?a ~><!-- ?>", "<!-- <?~ -->", "<![CDATA[<?~]]>", "<b k=\"<!--~\"/>", "<b k='?>~'>x</b>", "<?a '~?>",
}

//verif:run C21 n=0..3 quick
//verif:run C21 n=4..4 thorough budget=600
func hC21Shape(n int) {
	l := c21Shapes[vChoice(len(c21Shapes))]
	i := strings.Index(l, "~")
	raw := l[:i] + vStr(n) + l[i+1:]
	checkRaw(c21Targets[[]int{0, 2, 3}[vChoice(3)]], raw)
}

// Declarations in every letter case, alone and inside elements, comments and CDATA.
//
//verif:run C21 n=0..5 quick
func hC21Decl(n int) {
	w := ""
	word := []string{"dDoOcCtTyYpPeE", "eEnNtTiItTyY"}[n%2]
	for i := 0; i < len(word); i += 2 {
		w += string([]byte{vByteIn(word[i : i+2])})
	}
	decl := "<!" + w + " a SYSTEM 'x'>"
	raw := []string{decl, "<b>" + decl + "</b>", "<!--" + decl + "--><![CDATA[" + decl + "]]>"}[n/2]
	checkRaw(c21Targets[0], raw)
	_, err := xmldot.SetRaw("<r/>", "r", raw)
	vAssert((err != nil) == (n/2 < 2), "a declaration is refused, its text in a comment or CDATA section is not")
}

// Attribute targets: the text goes in as it is, unless it would end the value.
//
//verif:run C21 n=0..3 quick
//verif:run C21 n=4..5 thorough budget=600
func hC21Attr(n int) {
	raw := vStr(n)
	s := "<r><a k='1' m='2'>x</a></r>"
	p := []string{"r.a.@k", "r.a.@n", "r.b.@k"}[vChoice(3)]
	out, err := xmldot.SetRaw(s, p, raw)
	bad := strings.Contains(raw, "\"") || strings.Contains(raw, "<")
	if bad {
		vAssert(err != nil && out == s && sentinel(err) == xmldot.ErrInvalidValue, "a raw attribute value that ends the attribute is refused")
		return
	}
	vAssert(err == nil, "other raw attribute values are accepted")
	d := refParse(out)
	vAssert(d.ok && xmldot.Valid(out), "the result is valid")
	vAssert(strings.Contains(out, p[len(p)-1:]+"=\""+raw+"\""), "the raw text stands verbatim in the attribute")
	vAssert(xmldot.Get(out, p).Str == refUnescape(raw), "the attribute reads back")
	if p != "r.a.@k" {
		vAssert(xmldot.Get(out, "r.a.@k").Str == "1", "other attributes are unchanged")
	}
	vAssert(xmldot.Get(out, "r.a.@m").Str == "2" && xmldot.Get(out, "r.a").Str == "x", "the rest is unchanged")
}

// Raw text into any valid document of n bytes.
//
//verif:run C21 n=4..7 quick
//verif:run C21 n=8..8 thorough budget=600
func hC21Doc(n int) {
	s := vStr(n)
	d := refParse(s)
	vAssume(d.ok)
	for _, raw := range []string{"<q>1</q>t", "</a><a>"} {
		out, err := xmldot.SetRaw(s, "a", raw)
		if raw[1] == '/' {
			vAssert(sentinel(err) == xmldot.ErrInvalidValue && out == s, "unbalanced content is refused")
			continue
		}
		vAssert(err == nil && refParse(out).ok, "the result is valid")
		if t := refFind(d.roots, steps("a")); t != nil && !t.self {
			vAssert(out == s[:t.openEnd]+raw+s[t.close:], "the raw text stands verbatim at the target")
		}
	}
}
