package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// one reports whether x is a single element with the given name and text.
func one(x, name, v string) bool {
	return chain(x, []rseg{{k: 'e', name: name}}, v)
}

// appended checks the document written by Set of v on parent.name.-1.
func appended(s string, d *rdoc, parent []rseg, name, out string, is func(string) bool) bool {
	kids, close := d.roots, len(s)
	if len(parent) > 0 {
		n := refFind(d.roots, parent)
		if n == nil {
			return false
		}
		if n.self {
			return insideEnd(s, n, out, is)
		}
		kids, close = n.kids, n.close
	}
	ms := matching(kids, rseg{k: 'e', name: name})
	if len(ms) > 0 {
		close = ms[len(ms)-1].end
	}
	return cut(out, s[:close], s[close:], is)
}

func checkAppend(s string, d *rdoc, parent, name, v string, raw bool) {
	p := name + ".-1"
	base := name
	var segs []rseg
	if parent != "" {
		p = parent + "." + p
		base = parent + "." + name
		segs = steps(parent)
	}
	var out string
	var err error
	if raw {
		out, err = xmldot.SetRaw(s, p, v)
	} else {
		out, err = xmldot.Set(s, p, v)
	}
	is := func(m string) bool {
		if raw {
			return m == "<"+name+">"+v+"</"+name+">"
		}
		return one(m, name, v)
	}
	exists := len(segs) == 0 || refFind(d.roots, segs) != nil
	if !exists && !creatable(d, segs) {
		vAssert(err != nil && out == s && sentinel(err) == xmldot.ErrInvalidPath, "append below an element that cannot be created is refused")
		return
	}
	vAssert(err == nil, "append succeeds")
	if !exists {
		all := append(segs[:len(segs):len(segs)], rseg{k: 'e', name: name})
		if !raw {
			vAssert(setResult(s, d, all, out, v), "append creates the missing parents and one element")
		}
	} else {
		vAssert(appended(s, d, segs, name, out, is), "append inserts one element after its like-named siblings")
		before := 0
		if r := xmldot.Get(s, base+".#"); r.Exists() {
			before = int(r.Int())
		}
		// the count is read from the first parent, which is where the element went
		n := refFind(refParse(out).roots, steps(base+"."+itoa(before)))
		if n != nil {
			vAssert(xmldot.Get(out, base+".#").Int() == int64(before+1), "the count grows by one")
			g := xmldot.Get(out, base+"."+itoa(before))
			vAssert(g.Type == xmldot.Element && (raw && g.Raw == v || !raw && g.Str == strings.TrimSpace(v)), "the last one reads back as the value")
		}
	}
	vObs(out)
}

var c09Shapes = []string{
	"<r><{1}>1</{1}><{2}>2</{2}><{3}/></r>",
	"<{1}>1</{1}><{2}/><{3}>3</{3}>",
	"<r/>",
	"<{1}><{2}/></{1}>",
	"<r><{1}{s}{2}='/>'{s}/><{2}{s}>{t}</{2}{s}>{t}</r>",
	"<r><!--<{1}/>--><{1}>{t}</{1}><![CDATA[<{2}/>]]><{2}/>{t}</r>",
	"<r><{1}><{1}>x</{1}></{1}><{2}><{1}/></{2}></r>",
	"<r><p:{1}>1</p:{1}><{2}>2</{2}></r>",
	"<?x y?>{s}<{1}>1</{1}>{s}<!--{c}-->",
	"",
	"<{1} {2}='1'/>",
}

var c09Paths = [][2]string{{"", "a"}, {"", "r"}, {"r", "a"}, {"a", "b"}, {"r.a", "a"}, {"r.a.0", "b"}, {"r.a.1", "b"}, {"r.x.y", "a"}, {"x", "a"}, {"r", "p:a"}}

//verif:run C09 n=0..10 quick
func hC09Shape(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	c09Shape(t.expand(c09Shapes[n]), "V&")
}

//verif:run C09 n=0..10 thorough budget=200
func hC09ShapeDeep(n int) {
	t := &tmpl{names: "abr", tlen: 2}
	c09Shape(t.expand(c09Shapes[n]), vStr(1))
}

func c09Shape(s, v string) {
	d := refParse(s)
	vAssume(d.ok || s == "")
	for _, p := range c09Paths {
		checkAppend(s, d, p[0], p[1], v, false)
		checkAppend(s, d, p[0], p[1], "<c>1</c>", true)
	}
}

//verif:run C09 n=4..7 quick
//verif:run C09 n=8..9 thorough budget=200
func hC09Full(n int) {
	s := vStr(n)
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range [][2]string{{"", "a"}, {"a", "b"}, {"a", "a"}} {
		checkAppend(s, d, p[0], p[1], "V", false)
	}
}

//verif:run C09 n=1..5 quick
//verif:run C09 n=6..7 thorough budget=200
func hC09Content(n int) {
	s := "<r><a>1</a>" + vStr(n) + "</r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range [][2]string{{"r", "a"}, {"r", "b"}, {"r.a", "b"}, {"", "r"}} {
		checkAppend(s, d, p[0], p[1], "V", false)
	}
}

// Values of n arbitrary bytes.
//
//verif:run C09 n=0..3 quick
//verif:run C09 n=4..5 thorough budget=200
func hC09Value(n int) {
	v := vStr(n)
	for _, s := range []string{"", "<r/>", "<r><a>1</a><b/></r>"} {
		checkAppend(s, refParse(s), "r", "a", v, false)
	}
}

// -1 anywhere else and other negative indices are refused.
//
//verif:run C09 quick
func hC09Refuse() {
	d1, d2 := vByteIn("0129"), vByteIn("0123456789")
	num := "-" + string([]byte{d1})
	if vBool() {
		num += string([]byte{d2})
	}
	s := []string{"<r><a>1</a><a>2</a></r>", "<r/>", "", "<r><a><b/></a></r>"}[vChoice(4)]
	for _, suffix := range []string{".b", ".@k", ".0", ".-1", ".%"} {
		out, err := xmldot.Set(s, "r.a."+num+suffix, "v")
		if num != "-0" && num != "-00" {
			vAssert(err != nil && out == s && sentinel(err) == xmldot.ErrInvalidPath, "a negative index before further steps is refused")
		}
	}
	out, err := xmldot.Set(s, "r.a."+num, "v")
	n := 0
	for i := 1; i < len(num); i++ {
		n = n*10 + int(num[i]-'0')
	}
	if n > 1 {
		vAssert(err != nil && out == s && sentinel(err) == xmldot.ErrInvalidPath, "a negative index other than -1 is refused")
	}
	if n == 1 {
		vAssert(err == nil, "-1 appends")
	}
}
