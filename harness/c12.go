package main

// Reference conditions. A condition is "operand" or "operand op value".

// operand returns the operand of a condition on element n: "@k" or an element path.
func operand(s string, n *rnode, p string) (string, bool) {
	if p[0] == '@' {
		return n.attr(p[1:])
	}
	v := refGet(s, n.kids, steps(p))
	return v.str, v.k != 0
}

// refNum reads decimal numbers with sign, at most one dot and an exponent, as
// mantissa and power of ten. ok is false for anything else.
func refNum(t string) (m int, e int, ok bool) {
	i, neg, digits := 0, false, 0
	if i < len(t) && (t[i] == '-' || t[i] == '+') {
		neg = t[i] == '-'
		i++
	}
	for ; i < len(t) && t[i] >= '0' && t[i] <= '9'; i++ {
		m = m*10 + int(t[i]-'0')
		digits++
	}
	if i < len(t) && t[i] == '.' {
		for i++; i < len(t) && t[i] >= '0' && t[i] <= '9'; i++ {
			m = m*10 + int(t[i]-'0')
			e--
			digits++
		}
	}
	if digits == 0 {
		return 0, 0, false
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		eneg, x, ed := false, 0, 0
		if i < len(t) && (t[i] == '-' || t[i] == '+') {
			eneg = t[i] == '-'
			i++
		}
		for ; i < len(t) && t[i] >= '0' && t[i] <= '9'; i++ {
			x = x*10 + int(t[i]-'0')
			ed++
		}
		if ed == 0 {
			return 0, 0, false
		}
		if eneg {
			x = -x
		}
		e += x
	}
	if neg {
		m = -m
	}
	return m, e, i == len(t)
}

// cmpNum compares m1*10^e1 with m2*10^e2 for small exponents.
func cmpNum(m1, e1, m2, e2 int) int {
	for e1 > e2 {
		m1, e1 = m1*10, e1-1
	}
	for e2 > e1 {
		m2, e2 = m2*10, e2-1
	}
	if m1 < m2 {
		return -1
	}
	if m1 > m2 {
		return 1
	}
	return 0
}

// refCond evaluates operand, operator and value on an element.
func refCond(op, p, val string) func(n *rnode, s string) bool {
	return func(n *rnode, s string) bool {
		x, ok := operand(s, n, p)
		if op == "" || !ok {
			return ok
		}
		switch op {
		case "==":
			return x == val
		case "!=":
			return x != val
		case "%":
			return refMatch(x, val)
		case "!%":
			return !refMatch(x, val)
		}
		m1, e1, ok1 := refNum(x)
		m2, e2, ok2 := refNum(val)
		if !ok1 || !ok2 {
			return false
		}
		c := cmpNum(m1, e1, m2, e2)
		switch op {
		case "<":
			return c < 0
		case "<=":
			return c <= 0
		case ">":
			return c > 0
		}
		return c >= 0
	}
}

// checkFilter compares first and all filters below base with the reference.
func checkFilter(s string, d *rdoc, base, op, p, val, quote string, rests ...string) {
	c := p + op
	if op != "" {
		c += quote + val + quote
	}
	for k := 0; k < 2; k++ {
		q := rseg{k: 'q', cond: refCond(op, p, val), all: k == 1}
		f := base + ".#(" + c + ")"
		if k == 1 {
			f += "#"
		}
		segs := append(steps(base), q)
		checkPath(s, d, f, segs)
		for _, r := range rests {
			checkPath(s, d, f+"."+r, append(append([]rseg{}, segs...), steps(r)...))
		}
	}
}

func checkPath(s string, d *rdoc, path string, segs []rseg) {
	want := refGet(s, d.roots, segs)
	got := doGet(s, path)
	vAssert(same(got, want), "Get "+path+" equals the reading of the document tree")
	obsVal(want)
}

var textOps = []string{"==", "!="}
var numOps = []string{"<", "<=", ">", ">="}

// Text comparison: element texts and the condition value are symbolic.
//
//verif:run C12 n=0..2 quick
//verif:run C12 n=3..4 thorough budget=300
func hC12Text(n int) {
	t1, t2 := without(n, '<'), vStr(1)
	vAssume(t2[0] != '<')
	v := vStr(1)
	vAssume(plainValue(v))
	s := "<r><a><b>" + t1 + "</b></a><a><b>" + t2 + "</b><b>z</b></a><a>" + t2 + "</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, op := range textOps {
		checkFilter(s, d, "r.a", op, "b", v, "'", "b", "%")
	}
}

// plainValue: a value that a quoted condition can hold.
func plainValue(v string) bool {
	ok := true
	for i := 0; i < len(v); i++ {
		c := v[i]
		if c < ' ' || c == '\'' || c == '"' || c == '\\' || c == '(' || c == ')' || c == '=' || c == '!' || c == '<' || c == '>' || c == '%' {
			ok = false
		}
	}
	return ok
}

// Attribute operand, both quote styles, bare values.
//
//verif:run C12 n=0..2 quick
func hC12Attr(n int) {
	x := without(2, '"')
	v := vStr(2)
	vAssume(plainValue(v))
	q := []string{"'", "\"", ""}[n]
	if q == "" {
		vAssume(v[0] > ' ' && v[1] > ' ' && v[0] < 0x80 && v[1] < 0x80)
	}
	s := "<r><a k=\"" + x + "\">1</a><a>2</a><a k='" + "zz" + "' j=\"" + x + "\">3</a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, op := range textOps {
		checkFilter(s, d, "r.a", op, "@k", v, q, "%", "@j")
	}
	checkFilter(s, d, "r.a", "", "@k", "", "", "@j")
	checkFilter(s, d, "r.a", "", "@j", "", "")
}

// Numeric comparison of texts of n bytes over the characters numbers are made of.
//
//verif:run C12 n=0..2 quick
//verif:run C12 n=3..4 thorough budget=600
func hC12Num(n int) {
	x := vStrIn(n, "019.-+ex ")
	vAssume(smallExp(x))
	s := "<r><a><b>" + x + "</b></a><a><b>5</b></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, v := range []string{"1", "0.9", "-1.0", "1e1", "09", "x"} {
		for _, op := range numOps {
			checkFilter(s, d, "r.a", op, "b", v, "")
		}
	}
}

//verif:run C12 n=3 quick
//verif:run C12 n=4..5 thorough budget=300
func hC12NumLong(n int) {
	x := vStrIn(n, "1.-")
	s := "<r><a><b>" + x + "</b></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, op := range numOps {
		checkFilter(s, d, "r.a", op, "b", "1.1", "")
	}
}

// smallExp excludes exponents above one digit and digits before an exponent
// that the integer reference cannot scale.
func smallExp(x string) bool {
	for i := 0; i < len(x); i++ {
		if x[i] == 'e' {
			d := 0
			for j := i + 1; j < len(x); j++ {
				if x[j] >= '0' && x[j] <= '9' {
					d++
				}
			}
			if d > 1 {
				return false
			}
		}
	}
	return true
}

// The number in the condition is symbolic.
//
//verif:run C12 n=1..2 quick
//verif:run C12 n=3..4 thorough budget=600
func hC12NumValue(n int) {
	v := vStrIn(n, "019.-+e")
	vAssume(smallExp(v))
	vAssume(v != "")
	s := "<r><a k='1'/><a k='-0.9'/><a k='x'/><a k='10'/><a/></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, op := range numOps {
		checkFilter(s, d, "r.a", op, "@k", v, "")
	}
}

// Numbers that differ in the last of many digits.
//
//verif:run C12 n=0..6 quick
func hC12NumDigits(n int) {
	x := []string{"1677721", "-1677721", "8388608.", "12345678901234", "100000000.", "1.00000000000", "20000000"}[n]
	s := "<r><a k='" + x + vStrIn(1, "0123456789") + "'/></r>"
	v := x + []string{"0", "6", "7", "9"}[vChoice(4)]
	d := refParse(s)
	vAssume(d.ok)
	for _, op := range numOps {
		checkFilter(s, d, "r.a", op, "@k", v, "")
	}
}

// Spaces around the operand, the operator and the value do not matter.
//
//verif:run C12 quick
func hC12Space() {
	sp := func() string { return []string{"", " ", "  "}[vChoice(3)] }
	s := "<r><a k='1'><b>x y</b></a><a k='2'><b>1</b></a><a><b> 1 </b></a></r>"
	d := refParse(s)
	var op, p, v, quote string
	switch vChoice(4) {
	case 0:
		op, p, v, quote = textOps[vChoice(2)], "b", []string{"x y", "1"}[vChoice(2)], []string{"'", "\"", ""}[vChoice(3)]
	case 1:
		op, p, v = numOps[vChoice(4)], "@k", "1"
	case 2:
		op, p, v, quote = []string{"%", "!%"}[vChoice(2)], "b", "x*", []string{"'", ""}[vChoice(2)]
	case 3:
		p = []string{"b", "@k"}[vChoice(2)]
	}
	q := rseg{k: 'q', cond: refCond(op, p, v), all: true}
	f := "r.a.#(" + sp() + p + sp()
	if op != "" {
		f += op + sp() + quote + v + quote + sp()
	}
	checkPath(s, d, f+")#", append(steps("r.a"), q))
}

var c12Shapes = []string{
	"<r><{1}><{2}>{3}</{2}></{1}><{1} {4}='{3}'/><{5}><{2}>b</{2}></{5}></r>",
	"<r><{1}><{2}><{3}>{4}</{3}></{2}></{1}><a><b><b>a</b></b></a></r>",
	"<{1}><b>{2}</b></{1}><a><b>b</b><{3}/></a>",
	"<r><a><!--<b>a</b>--><{1}>{2}</{1}></a><a><![CDATA[<b>a</b>]]></a><a b=\"a\"><b/></a></r>",
	"<r><p:{1}><q:{2}>a</q:{2}></p:{1}><a><{3}>a</{3}><{4}>b</{4}></a></r>",
	"<r><{1}><i><{2}>a</{2}></i><i><b>b</b></i></{1}></r>",
	"<r><{1} {2}=\"a\" {3}='b'/><{1}>{2}</{1}><{4}/></r>",
}

func c12Conds(s string, d *rdoc, base string) {
	checkFilter(s, d, base, "==", "b", "a", "'", "b", "c", "#", "#.b", "0", "%")
	checkFilter(s, d, base, "!=", "b", "a", "", "b", "@b")
	checkFilter(s, d, base, "==", "b.b", "a", "", "b.b")
	checkFilter(s, d, base, "==", "@b", "a", "\"")
	checkFilter(s, d, base, "==", "b.1", "b", "")
	checkFilter(s, d, base, "", "b", "", "", "b", "#.@b")
	checkFilter(s, d, base, "", "@a", "", "", "@a")
	checkFilter(s, d, base, "==", "q:b", "a", "'")
	checkFilter(s, d, base, "==", "b.@a", "a", "'")
	checkFilter(s, d, base, "==", "b.#", "1", "")
}

//verif:run C12 n=0..6 quick
func hC12Shape(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand(c12Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	c12Conds(s, d, "r.a")
	c12Conds(s, d, "a")
	checkFilter(s, d, "r.a.i", "==", "b", "b", "", "b")
	checkFilter(s, d, "r.a.0.i", "", "b", "", "", "b")
}

// A filter on root-level elements and directly below a single parent.
//
//verif:run C12 n=3..4 quick
//verif:run C12 n=5..6 thorough budget=300
func hC12Content(n int) {
	s := "<r><a><b>x</b></a>" + vStr(n) + "<a><b>y</b></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	checkFilter(s, d, "r.a", "!=", "b", "x", "'", "b")
	checkFilter(s, d, "r.a", "", "b", "", "", "#.b")
	checkFilter(s, d, "r.b", "", "a", "", "")
}

// Any printable character inside the quotes of a condition value.
//
//verif:run C12 n=1..3 quick
//verif:run C12 n=4 thorough budget=100
func hC12Value(n int) {
	v := vStr(n)
	esc := ""
	for i := 0; i < n; i++ {
		c := v[i]
		vAssume(c >= ' ' && c < 0x7f && c != '\'' && c != '<' && c != '&' && c != '"')
		// operator characters and brackets in a value are outside the claim
		vAssume(c != '=' && c != '!' && c != '>' && c != '%' && c != '(' && c != ')')
		if c == '\\' {
			esc += "\\"
		}
		esc += v[i : i+1]
	}
	vAssume(v[0] != ' ' && v[n-1] != ' ')
	s := "<r><a><b>q</b></a><a><b>" + v + "</b><c>1</c></a><a><b>" + v + "x</b></a></r>"
	d := refParse(s)
	vAssume(d.ok)
	q := rseg{k: 'q', cond: refCond("==", "b", v)}
	checkPath(s, d, "r.a.#(b=='"+esc+"')", append(steps("r.a"), q))
	checkPath(s, d, "r.a.#(b==\""+esc+"\").c", append(append(steps("r.a"), q), steps("c")...))
	q = rseg{k: 'q', cond: refCond("!=", "b", v), all: true}
	checkPath(s, d, "r.a.#(b!='"+esc+"')#", append(steps("r.a"), q))
	checkPath(s, d, "r.a.#(b!='"+esc+"')#.b", append(append(steps("r.a"), q), steps("b")...))
}
