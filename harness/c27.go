package main

import (
	"strings"

	"github.com/netascode/xmldot"
)

// refInt is the decimal value of s, or 0.
func refInt(s string) int64 {
	i, neg := 0, false
	if s != "" && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i = 1
	}
	if i == len(s) {
		return 0
	}
	var v uint64
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0
		}
		d := uint64(s[i] - '0')
		if v > (1<<63)/10 {
			return 0
		}
		v = v*10 + d
		if v > 1<<63 || v == 1<<63 && !neg {
			return 0
		}
	}
	if neg {
		return -int64(v)
	}
	return int64(v)
}

// refFloat is the decimal value of s, or 0, for up to 15 significant digits and
// a one-digit exponent. ok is false for spellings of infinity and not-a-number, and
// for those of Go literals: hexadecimal, or digits set apart by an underscore.
func refFloat(s string) (v float64, ok bool) {
	l := lower(s)
	if strings.Contains(l, "_") {
		return 0, false
	}
	i, neg := 0, false
	if l != "" && (l[0] == '-' || l[0] == '+') {
		neg = l[0] == '-'
		i = 1
	}
	if rest := l[i:]; rest == "inf" || rest == "infinity" || rest == "nan" || hasAt(rest, 0, "0x") {
		return 0, false
	}
	var m int64
	digits, scale := 0, 0
	for ; i < len(l) && (l[i] >= '0' && l[i] <= '9' || l[i] == '.' && scale == 0); i++ {
		if l[i] == '.' {
			scale = 1
			continue
		}
		m = m*10 + int64(l[i]-'0')
		digits++
		if scale > 0 {
			scale++
		}
	}
	if scale > 0 {
		scale--
	}
	if digits == 0 {
		return 0, true
	}
	if i < len(l) && l[i] == 'e' {
		i++
		down := false
		if i < len(l) && (l[i] == '-' || l[i] == '+') {
			down = l[i] == '-'
			i++
		}
		if i != len(l)-1 || l[i] < '0' || l[i] > '9' {
			return 0, true
		}
		if down {
			scale += int(l[i] - '0')
		} else {
			scale -= int(l[i] - '0')
		}
		i++
	}
	if i != len(l) {
		return 0, true
	}
	v = float64(m)
	p := float64(1)
	for ; scale > 0; scale-- {
		p *= 10
	}
	v /= p
	for ; scale < 0; scale++ {
		v *= 10
	}
	if neg {
		v = -v
	}
	return v, true
}

func refBool(s string) bool {
	switch s {
	case "true", "1", "yes", "True", "YES", "t", "T":
		return true
	}
	return false
}

// kinds of results holding text t
func withText(t string) xmldot.Result {
	ty := []xmldot.Type{xmldot.String, xmldot.Element, xmldot.Attribute}[vChoice(3)]
	return xmldot.Result{Type: ty, Str: t, Raw: t}
}

func checkText(r xmldot.Result, t string) {
	vAssert(r.Int() == refInt(t), "Int is the decimal value of the text or 0")
	vAssert(r.Bool() == refBool(t), "Bool is true exactly for the listed texts")
	vAssert(r.String() == t && r.Exists() && !r.IsArray(), "String is the text")
	v, ok := r.Value().(string)
	vAssert(ok && v == t, "Value is the text")
	a := r.Array()
	vAssert(len(a) == 1 && a[0].Str == t && a[0].Type == r.Type && a[0].Raw == r.Raw, "Array of one value holds it")
	calls := 0
	r.ForEach(func(i int, x xmldot.Result) bool {
		vAssert(i == 0 && x.Str == t && x.Type == r.Type, "ForEach of one value visits it")
		calls++
		return vBool()
	})
	vAssert(calls == 1, "ForEach visits one value once")
}

// Any text of n bytes.
//
//verif:run C27 n=0..4 quick
//verif:run C27 n=5..6 thorough budget=600
func hC27Text(n int) {
	t := vStr(n)
	checkText(withText(t), t)
}

// Digits and signs.
//
//verif:run C27 n=1..5 quick
//verif:run C27 n=6..8 thorough budget=600
func hC27Int(n int) {
	t := vStrIn(n, "+-0123456789")
	r := xmldot.Result{Type: xmldot.Element, Str: t}
	vAssert(r.Int() == refInt(t), "Int is the decimal value of the text or 0")
}

// Numbers around the ends of the range.
//
//verif:run C27 quick
func hC27Range() {
	sign := []string{"", "-", "+", "--"}[vChoice(4)]
	t := sign + "92233720368547758" + vStrIn(2, "0123456789") + []string{"", "0", "x"}[vChoice(3)]
	r := withText(t)
	vAssert(r.Int() == refInt(t), "Int is the decimal value of the text or 0")
}

// Decimal numbers.
//
//verif:run C27 n=1..3 quick
//verif:run C27 n=4..4 thorough budget=1200
func hC27Float(n int) {
	t := vStrIn(n, "+-.0123456789eE x")
	r := withText(t)
	want, ok := refFloat(t)
	if ok {
		vAssert(r.Float() == want, "Float is the decimal value of the text or 0")
	}
}

// Longer decimal numbers of fixed shape.
//
//verif:run C27 n=0..5 quick
func hC27FloatLong(n int) {
	f := []string{"12~.~~", "-~.~5", "0.00~~1", "~~e1", "~.5E-~", "3~ ~"}[n]
	t := ""
	for i := 0; i < len(f); i++ {
		if f[i] == '~' {
			t += vStrIn(1, "0123456789")
		} else {
			t += f[i : i+1]
		}
	}
	r := xmldot.Result{Type: xmldot.Element, Str: t}
	want, _ := refFloat(t)
	vAssert(r.Float() == want, "Float is the decimal value of the text or 0")
}

// The listed texts and their neighbours.
//
//verif:run C27 quick
func hC27Bool() {
	w := []string{"true", "yes", "t", "1", "false", "on"}[vChoice(6)]
	b := []byte(w)
	for i := range b {
		if b[i] >= 'a' && vBool() {
			b[i] -= 'a' - 'A'
		}
	}
	t := string(b)
	switch vChoice(3) {
	case 1:
		t += vStrIn(1, " e1")
	case 2:
		t = vStrIn(1, " 01") + t
	}
	r := withText(t)
	vAssert(r.Bool() == refBool(t), "Bool is true exactly for the listed texts")
}

// Typed results.
//
//verif:run C27 quick
func hC27Typed() {
	n := xmldot.Result{}
	vAssert(!n.Exists() && n.String() == "" && n.Int() == 0 && n.Float() == 0 && !n.Bool() && n.Value() == nil && len(n.Array()) == 0 && n.Array() != nil && !n.IsArray(), "nothing converts to nothing")
	n.ForEach(func(int, xmldot.Result) bool { vAssert(false, "ForEach of nothing visits nothing"); return true })
	t := xmldot.Result{Type: xmldot.True, Str: "true"}
	f := xmldot.Result{Type: xmldot.False, Str: "false"}
	vAssert(t.Bool() && t.Int() == 1 && t.Float() == 1 && t.Value() == true && t.Exists(), "true")
	vAssert(!f.Bool() && f.Int() == 0 && f.Float() == 0 && f.Value() == false && f.Exists(), "false")
	i := int(vByteIn("\x00\x01\x63\x64\x65\x66\xff")) - 100
	x := xmldot.Result{Type: xmldot.Number, Num: float64(i), Str: "text"}
	vAssert(x.Int() == int64(i) && x.Float() == float64(i) && x.Bool() == (i != 0) && x.Exists() && x.String() == "text", "a number converts to itself")
	v, ok := x.Value().(float64)
	vAssert(ok && v == float64(i), "Value of a number is the number")
}

// unquote reads the array text back; nil when it is not of that form.
func unquote(s string) ([]string, bool) {
	if len(s) < 2 || s[0] != '[' || s[len(s)-1] != ']' {
		return nil, false
	}
	s = s[1 : len(s)-1]
	var out []string
	i := 0
	for i < len(s) {
		if len(out) > 0 {
			if s[i] != ',' {
				return nil, false
			}
			i++
		}
		if i >= len(s) || s[i] != '"' {
			return nil, false
		}
		i++
		item := ""
		for {
			if i >= len(s) {
				return nil, false
			}
			if s[i] == '"' {
				break
			}
			if s[i] == '\\' {
				i++
				if i >= len(s) {
					return nil, false
				}
			}
			item += s[i : i+1]
			i++
		}
		i++
		out = append(out, item)
	}
	return out, true
}

// Arrays of up to three items with n bytes between them.
//
//verif:run C27 n=0..3 quick
//verif:run C27 n=4..6 thorough budget=600
func hC27Array(n int) {
	t := vStr(n)
	cut := vChoice(n + 1)
	items := []string{t[:cut], t[cut:], "z"}
	k := vChoice(4)
	r := xmldot.Result{Type: xmldot.Array}
	for _, x := range items[:k] {
		r.Results = append(r.Results, xmldot.Result{Type: xmldot.Element, Str: x})
	}
	if k > 1 && vBool() {
		// an item that is nothing
		r.Results[0], items[0] = xmldot.Result{}, ""
	}
	got, ok := unquote(r.String())
	vAssert(ok && len(got) == k, "String of an array holds its items")
	for i := range got {
		vAssert(got[i] == items[i], "items can be recovered from String")
	}
	vAssert(r.IsArray() && r.Exists() && len(r.Array()) == k, "an array is an array")
	vAssert(r.Int() == 0 && r.Float() == 0 && !r.Bool(), "an array is no number and not true")
	v, isList := r.Value().([]xmldot.Result)
	vAssert(isList && len(v) == k, "Value of an array is its items")
	stop := vChoice(4)
	calls := 0
	r.ForEach(func(i int, x xmldot.Result) bool {
		vAssert(i == calls && x.Str == items[i], "ForEach visits the items in order")
		calls++
		return i != stop
	})
	want := k
	if stop < k {
		want = stop + 1
	}
	vAssert(calls == want, "ForEach stops when told")
	if k > 0 {
		vAssert(strings.HasPrefix(r.String(), "[\""), "String of an array quotes its items")
	} else {
		vAssert(r.String() == "[]", "String of an empty array")
	}
}

// Arrays in arrays.
//
//verif:run C27 n=0..2 quick
//verif:run C27 n=3..3 thorough budget=600
func hC27Nested(n int) {
	t := vStr(n)
	in := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{{Type: xmldot.String, Str: t}, {Type: xmldot.Null}}}
	r := xmldot.Result{Type: xmldot.Array, Results: []xmldot.Result{in, {Type: xmldot.Attribute, Str: t}}}
	out, ok := unquote(r.String())
	vAssert(ok && len(out) == 2 && out[1] == t, "items can be recovered from String")
	inner, ok := unquote(out[0])
	vAssert(ok && len(inner) == 2 && inner[0] == t && inner[1] == "", "items of inner arrays can be recovered")
}

// Conversions of results that queries return.
//
//verif:run C27 n=1..3 quick
//verif:run C27 n=4..4 thorough budget=600
func hC27Query(n int) {
	t := vStrIn(n, "0123456789-+tTrue.")
	s := "<r><a k='" + t + "'>" + t + "</a><a>2</a></r>"
	for _, p := range []string{"r.a", "r.a.@k", "r.a.%"} {
		r := xmldot.Get(s, p)
		vAssert(r.Int() == refInt(t) && r.Bool() == refBool(t) && r.String() == t, "results convert like their text")
	}
	c := xmldot.Get(s, "r.a.#")
	vAssert(c.Int() == 2 && c.Float() == 2 && c.String() == "2" && c.Bool(), "counts convert like numbers")
	got, ok := unquote(xmldot.Get(s, "r.*").String())
	vAssert(ok && len(got) == 2 && got[0] == t && got[1] == "2", "items can be recovered from String")
}
