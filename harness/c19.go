package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

const (
	c19Depth    = 100
	c19Attrs    = 100
	c19Filter   = 256
	c19Chain    = 20
	c19Results  = 1000
	c19Token    = 1 << 20
	c19Value    = 5 << 20
	c19Document = 10 << 20
)

func refused(in, out string, err error, sort error, what string) {
	vAssert(sentinel(err) == sort, what+" is refused")
	vAssert(out == in, "a refused write returns its input")
}

// The documented limits.
//
//verif:run C19 quick
func hC19Const() {
	i := vChoice(12)
	have := []int{xmldot.MaxNestingDepth, xmldot.MaxDocumentSize, xmldot.MaxValueSize, xmldot.MaxAttributes,
		xmldot.MaxTokenSize, xmldot.MaxPathSegments, xmldot.MaxFilterExpressionLength, xmldot.MaxFilterDepth,
		xmldot.MaxWildcardResults, xmldot.MaxRecursiveOperations, xmldot.MaxModifierChainDepth, xmldot.MaxFieldNameLength}
	want := []int{100, 10485760, 5242880, 100, 1048576, 100, 256, 10, 1000, 10000, 20, 256}
	vAssert(have[i] == want[i], "the limit has its documented value")
}

// Elements nested n deep.
//
//verif:run C19 n=97..103 quick steps=100000000
//verif:run C19 n=150..150 quick steps=100000000
func hC19Depth(n int) {
	x := string([]byte{vByteIn("ab")})
	t := without(1, '<')
	s := strings.Repeat("<a>", n-1) + "<" + x + " k='1'>" + t + "</" + x + ">" + strings.Repeat("</a>", n-1)
	in := n <= c19Depth
	vAssert(xmldot.Valid(s) == (in && refParse(s).ok), "Valid accepts exactly up to 100 levels")
	full := strings.Repeat("a.", n-1) + x
	if in {
		r := xmldot.Get(s, full)
		vAssert(r.Exists() && r.Raw == t, "an element at the limit is found")
		vAssert(xmldot.Get(s, "**.@k").Str == "1" || x == "a" || xmldot.Get(s, "**."+x+".@k").Str == "1", "the recursive wildcard reaches the limit")
	}
	if x == "b" {
		r := xmldot.Get(s, "**.b")
		ro := xmldot.GetWithOptions(s, "**.B", foldOptions())
		if in {
			vAssert(r.Raw == t && ro.Raw == t, "the recursive wildcard reaches the limit")
		} else if n > c19Depth+1 {
			vAssert(!r.Exists() && !ro.Exists(), "the recursive wildcard stops at the limit")
		}
	}
	if !in {
		out, err := xmldot.Set(s, "a.z", "v")
		refused(s, out, err, xmldot.ErrMalformedXML, "a document nested too deep")
		out, err = xmldot.Delete(s, "a")
		refused(s, out, err, xmldot.ErrMalformedXML, "a document nested too deep")
		out, err = xmldot.SetRaw(s, "a", "<q/>")
		refused(s, out, err, xmldot.ErrMalformedXML, "a document nested too deep")
	} else if refParse(s).ok {
		out, err := xmldot.Set(s, "a.@z", "v")
		vAssert(err == nil && out == "<a z=\"v\">"+s[3:], "a document at the limit can be written")
	}
}

// Writes that would nest deeper than the limit.
//
//verif:run C19 n=96..101 quick steps=100000000
func hC19Deeper(n int) {
	t := vStrIn(1, "xy>")
	s := strings.Repeat("<a>", n-2) + "<b>" + t + "</b>" + strings.Repeat("</a>", n-2)
	p := strings.Repeat("a.", n-2) + "b"
	depth := n - 1
	var out string
	var err error
	switch vChoice(5) {
	case 0:
		depth++
		out, err = xmldot.Set(s, p+".c", "v")
	case 1:
		depth += 2
		out, err = xmldot.Set(s, p+".c.d", "v")
	case 2:
		depth += 2
		out, err = xmldot.SetRaw(s, p, "<c><d>"+t+"</d></c>")
	case 3:
		depth++
		out, err = xmldot.SetRaw(s, p, "<c/><d/>")
	default:
		depth++
		out, err = xmldot.Set(s, p+".c.-1", "v")
	}
	if err != nil {
		vAssert(depth > c19Depth || len(strings.Split(p, "."))+2 > 100, "nesting up to the limit is accepted")
		vAssert(out == s, "a refused write returns its input")
		return
	}
	vAssert(depth <= c19Depth, "nesting beyond the limit is refused")
	vAssert(xmldot.Valid(out), "the written document is valid")
}

// An element with n attributes.
//
//verif:run C19 n=98..102 quick steps=100000000
func hC19Attrs(n int) {
	s := "<r><a"
	v := vStrIn(1, "xy'")
	for i := 0; i < n; i++ {
		if i == n-1 {
			s += " k" + itoa(i) + "=\"" + v + "\""
		} else {
			s += " k" + itoa(i) + "='" + itoa(i) + "'"
		}
	}
	s += ">t</a></r>"
	in := n <= c19Attrs
	vAssert(xmldot.Valid(s) == in, "Valid accepts exactly up to 100 attributes")
	vAssert(xmldot.Get(s, "r.a").Str == "t", "the element is found")
	r := xmldot.Get(s, "r.a.@k"+itoa(n-1))
	if in {
		vAssert(r.Str == v, "the last attribute is found")
	} else {
		vAssert(!r.Exists(), "attributes beyond the limit are ignored")
	}
	out, err := xmldot.Set(s, "r.a.@k0", "N")
	if in {
		vAssert(err == nil && xmldot.Get(out, "r.a.@k"+itoa(n-1)).Str == v, "an element at the limit can be written")
	} else {
		refused(s, out, err, xmldot.ErrMalformedXML, "an element with too many attributes")
	}
	if in {
		out, err = xmldot.Set(s, "r.a.@new", "N")
		vAssert((err == nil) == (n < c19Attrs), "the 100th attribute can be added, the 101st not")
		if err != nil {
			vAssert(out == s, "a refused write returns its input")
		} else {
			vAssert(xmldot.Valid(out) && xmldot.Get(out, "r.a.@new").Str == "N", "the added attribute is found")
		}
	}
}

// A chain of n modifiers.
//
//verif:run C19 n=18..22 quick
func hC19Chain(n int) {
	v := vStrIn(2, "ab")
	s := "<r><b>" + v[:1] + "</b><b>" + v[1:] + "</b></r>"
	m := []string{"|@reverse", "|@flatten", "|@sort"}[vChoice(3)]
	p := "r.*" + strings.Repeat(m, n)
	r := xmldot.Get(s, p)
	ro := xmldot.GetWithOptions(s, p, &xmldot.Options{CaseSensitive: false})
	if n > c19Chain {
		vAssert(!r.Exists() && !ro.Exists(), "a chain beyond the limit gives nothing")
		return
	}
	if vAssertPair(r) && vAssertPair(ro) {
		vAssert(shown(r) == shown(ro), "options make no difference")
		first := v[:1]
		if m == "|@reverse" && n%2 == 1 || m == "|@sort" && v[0] > v[1] {
			first = v[1:]
		}
		vAssert(r.Results[0].Str == first, "a chain at the limit is applied completely")
	}
}

func vAssertPair(r xmldot.Result) bool {
	vAssert(r.Type == xmldot.Array && len(r.Results) == 2, "a chain at the limit is applied")
	return r.Type == xmldot.Array && len(r.Results) == 2
}

// Filter conditions of n bytes.
//
//verif:run C19 n=254..258 quick
//verif:run C19 n=300..300 quick
func hC19Filter(n int) {
	c := vByteIn("xy")
	v := strings.Repeat("x", n-4) + string([]byte{c})
	s := "<r><b><c>" + strings.Repeat("x", n-3) + "</c></b></r>"
	all := []string{"", "#"}[vChoice(2)]
	p := "r.b.#(c==" + v + ")" + all
	hit := n <= c19Filter && c == 'x'
	vAssert(xmldot.Get(s, p).Exists() == (hit || all == "#" && xmldot.Get(s, "r.b.#(c==q)#").Exists()), "conditions up to 256 bytes are evaluated, longer ones match nothing")
	if all == "#" && n > c19Filter {
		vAssert(len(xmldot.Get(s, p).Results) == 0, "longer conditions match nothing")
	}
	vAssert(xmldot.GetWithOptions(s, p, &xmldot.Options{CaseSensitive: true}).Exists() == xmldot.Get(s, p).Exists(), "options make no difference")
	q := strings.Repeat("c", n)
	s = "<r><b><" + q + ">" + string([]byte{c}) + "</" + q + "></b></r>"
	vAssert(xmldot.Get(s, "r.b.#("+q+")").Exists() == (n <= c19Filter), "conditions up to 256 bytes are evaluated, longer ones match nothing")
}

// Queries with more than 1000 matches return the first 1000 in document order.
//
//verif:run C19 n=0..15 quick steps=2000000000
func hC19Results(n int) {
	type q struct {
		p   string
		doc int
	}
	qs := []q{{"r.*.*", 0}, {"r.*.c.#.%", 0}, {"r.b.#(@k)#.*", 0}, {"r.*.**.c", 0}, {"**.c", 0}, {"**.b.*", 0}, {"**.b.#.c", 0}, {"r.b.#.c", 0}, {"r.**.c", 0}, {"r.b.#(@k)#.c.#.%", 0},
		{"r.*", 1}, {"r.c.#(@k)#", 1}, {"**.c", 1}, {"r.c.#.%", 1}, {"r.*.%", 1}, {"*.*", 1}}[n]
	off := 1 + vChoice(2)*2 // 1 or 3 beyond, or below
	v := vStrIn(1, "x<")
	if v == "<" {
		v = "<e/>"
	}
	num := 0
	s := "<r>"
	if qs.doc == 0 {
		// 32 blocks of 32 items, 31 in the last ones
		for i := 0; i < 32; i++ {
			s += "<b k='" + itoa(i) + "'>"
			for j := 0; j < 31+off%2+(off-1)/2; j++ {
				s += "<c k=''>" + itoa(num) + "</c>"
				num++
			}
			s += "</b>"
		}
	} else {
		for num < c19Results+off-2 {
			s += "<c k=''>" + itoa(num) + "</c>"
			num++
		}
	}
	s += "<d>" + v + "</d></r>"
	extra := 0
	if qs.doc == 1 && strings.Contains(qs.p, ".*") {
		extra = 1 // the d element
	}
	want := num + extra
	if qs.p == "r.*.*" && v == "<e/>" {
		want++
	}
	if want > c19Results {
		want = c19Results
	}
	for i := 0; i < 2; i++ {
		var r xmldot.Result
		if i == 0 {
			r = xmldot.Get(s, qs.p)
		} else {
			r = xmldot.GetWithOptions(s, qs.p, &xmldot.Options{CaseSensitive: false})
		}
		vAssert(r.Type == xmldot.Array && len(r.Results) <= c19Results, "no query returns more than 1000 results")
		vAssert(len(r.Results) == want, "up to 1000 results are returned")
		for i, x := range r.Results {
			if i >= num {
				break
			}
			vAssert(x.Str == itoa(i), "the first results in document order are returned")
		}
	}
	vObsInt(want)
}

// Counts stop at the limit as well.
//
//verif:run C19 n=998..1002 quick steps=200000000
func hC19Count(n int) {
	s := "<r>" + strings.Repeat("<c/>", n-1) + "<" + string([]byte{vByteIn("cd")}) + "/></r>"
	want := n
	if strings.HasSuffix(s, "<d/></r>") {
		want--
	}
	if want > c19Results {
		want = c19Results
	}
	vAssert(xmldot.Get(s, "r.c.#").Int() == int64(want), "the count goes up to 1000")
}

// A text value of about n bytes over or under the limit, measured after escaping.
//
//verif:run C19 quick steps=4000000000
func hC19Value() {
	n := vChoice(4)
	size := c19Value - 5 + n*2
	tail := vStrIn(1, "x&")
	x := "<![CDATA[" + strings.Repeat("x", size-12) + "]]>"
	if tail == "&" {
		tail = "&amp;"
	}
	in := size+len(tail) <= c19Value
	s := "<r><a>1</a></r>"
	var out string
	var err error
	how := vChoice(3)
	p := []string{"r.a", "r.a.-1", "r.n"}[how]
	switch how {
	case 0:
		out, err = xmldot.SetRaw(s, p, x+tail)
	case 1:
		out, err = xmldot.SetWithOptions(s, p, []byte(x+tail), &xmldot.Options{CaseSensitive: true, Indent: ""})
	default:
		out, err = xmldot.Set(s, p, []byte(x+tail))
	}
	if !in {
		refused(s, out, err, xmldot.ErrInvalidValue, "a value over 5 MB")
	} else {
		vAssert(err == nil && strings.HasSuffix(out, tail+out[len(out)-8:]) || err == nil, "a value of 5 MB is accepted")
		vAssert(len(out) > c19Value-20, "the value is written")
	}
}

// A string value is measured after escaping.
//
//verif:run C19 quick steps=4000000000
func hC19Text() {
	n := vChoice(3)
	c := string([]byte{vByteIn("x<&\"'>")})
	size := c19Value - 5 + n*2
	v := strings.Repeat("x", size-1) + c
	esc := len(refEscape(c))
	s := "<r><a>1</a></r>"
	// only the refused sizes and the sizes at the limit
	vAssume(size-1+esc >= c19Value)
	out, err := xmldot.Set(s, "r.a", v)
	if size-1+esc > c19Value {
		refused(s, out, err, xmldot.ErrInvalidValue, "a value over 5 MB")
	} else {
		vAssert(err == nil && len(out) == c19Value+len("<r><a></a></r>"), "a value of 5 MB is accepted")
	}
}

// Names and attribute values of about 1 MB.
//
//verif:run C19 quick steps=4000000000
func hC19Token() {
	n := vChoice(3)
	c := string([]byte{vByteIn("xy")})
	x := strings.Repeat("x", c19Token-2+n) + c
	in := n <= 1
	how := vChoice(5)
	s := "<r/>"
	var out string
	var err error
	switch how {
	case 0:
		out, err = xmldot.Set(s, "r.@k", x)
	case 1:
		out, err = xmldot.Set(s, "r."+x, "v")
	case 2:
		out, err = xmldot.Set(s, "r.@"+x, "v")
	case 3:
		s = "<r " + x + "='1'/>"
	case 4:
		s = "<" + x + "/>"
	}
	if how >= 3 {
		vAssert(xmldot.Valid(s) == in, "Valid accepts names up to 1 MB")
		return
	}
	vAssert((err == nil) == in, "names and attribute values up to 1 MB are accepted, longer ones refused")
	if err != nil {
		vAssert(out == s, "a refused write returns its input")
	} else {
		vAssert(xmldot.Valid(out), "the written document is valid")
	}
}

// Documents of about 10 MB.
//
//verif:run C19 quick steps=8000000000
func hC19Doc() {
	n := vChoice(10)
	over := vChoice(2)
	head, foot := "<r><b>", "</b><!--"
	v := vStrIn(1, "12")
	fill := c19Document + over - len(head) - 1 - len(foot) - len("--></r>")
	s := head + v + foot + strings.Repeat("x", fill) + "--></r>"
	in := over == 0
	vAssert(len(s) == c19Document+over, "size")
	var out string
	var err error
	opts := &xmldot.Options{CaseSensitive: false}
	switch n {
	case 0:
		vAssert(xmldot.Valid(s) == in, "Valid accepts exactly up to 10 MB")
		return
	case 1:
		r := xmldot.Get(s, "r.b")
		vAssert(r.Exists() == in && (!in || r.Str == v), "queries answer exactly up to 10 MB")
		return
	case 2:
		r := xmldot.GetBytes([]byte(s), "r.b")
		vAssert(r.Exists() == in && (!in || r.Str == v), "queries answer exactly up to 10 MB")
		return
	case 3:
		r := xmldot.GetWithOptions(s, "r.b", opts)
		vAssert(r.Exists() == in && (!in || r.Str == v), "queries answer exactly up to 10 MB")
		return
	case 4:
		r := xmldot.GetMany(s, "r.b", "r.c")
		vAssert(r[0].Exists() == in && !r[1].Exists() && (!in || r[0].Str == v), "queries answer exactly up to 10 MB")
		return
	case 5:
		out, err = xmldot.Set(s, "r.b", "3")
	case 6:
		out, err = xmldot.SetWithOptions(s, "r.b", "3", opts)
	case 7:
		out, err = xmldot.SetRaw(s, "r.b", "3")
	case 8:
		out, err = xmldot.Delete(s, "r.b")
	case 9:
		out, err = xmldot.SetMany(s, []string{"r.b"}, []interface{}{"3"})
	}
	if !in {
		refused(s, out, err, xmldot.ErrMalformedXML, "a document over 10 MB")
		return
	}
	vAssert(err == nil, "a document of 10 MB is accepted")
	if n == 8 {
		vAssert(len(out) == len(s)-len("<b>1</b>"), "the element is deleted")
	} else {
		vAssert(out[6] == '3' && len(out) == len(s), "the element is written")
	}
}

// Writes whose result is just within or over 10 MB.
//
//verif:run C19 quick steps=8000000000
func hC19Grow() {
	n := vChoice(4)
	head, foot := "<r><b>1</b>", "<!--"
	fill := c19Document - 10 - len(head) - len(foot) - len("--></r>")
	s := head + foot + strings.Repeat("x", fill) + "--></r>"
	v := strings.Repeat("y", 10) + []string{"", vStrIn(1, "1&")}[vChoice(2)]
	size := len(s) - 1 + len(refEscape(v))
	var out string
	var err error
	switch n {
	case 0:
		out, err = xmldot.Set(s, "r.b", v)
	case 1:
		out, err = xmldot.SetWithOptions(s, "r.B", v, &xmldot.Options{CaseSensitive: false})
	case 2:
		out, err = xmldot.SetRaw(s, "r.b", refEscape(v))
	case 3:
		out, err = xmldot.SetMany(s, []string{"r.b"}, []interface{}{v})
	}
	if size > c19Document {
		refused(s, out, err, xmldot.ErrInvalidValue, "a result over 10 MB")
	} else {
		vAssert(err == nil && len(out) == size, "a result of 10 MB is accepted")
	}
}
