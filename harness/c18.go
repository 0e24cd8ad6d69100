package main

import "github.com/netascode/xmldot"

// twiceSame performs f once with maps in insertion order and once under every
// iteration order, and compares: then all orders give the same.
func twiceSame(what string, f func() string) {
	vMapOrders(false)
	a := f()
	vMapOrders(true)
	b := f()
	vAssert(a == b, what+" returns the same bytes every time")
	vObs(a)
}

func wrote(out string, err error) string { return out + "|" + errName(err) }

// Attributes with symbolic names and values: reads and writes.
//
//verif:run C18 n=0..9 quick repeat=60
func hC18Attrs(n int) {
	t := &tmpl{names: "kKmM", tlen: 1}
	s := t.expand("<r><a {1}='1' {2}=\"{v}\" {3}='3'>x</a></r>")
	d := refParse(s)
	vAssume(d.ok)
	switch n {
	case 0:
		twiceSame("Set of an attribute", func() string { return wrote(xmldot.Set(s, "r.a.@k", "V")) })
	case 1:
		twiceSame("Set of a new attribute", func() string { return wrote(xmldot.Set(s, "r.a.@z", "V")) })
	case 2:
		twiceSame("Delete of an attribute", func() string { return wrote(xmldot.Delete(s, "r.a.@k")) })
	case 3:
		twiceSame("case-insensitive Get", func() string { return shown(xmldot.GetWithOptions(s, "r.a.@K", foldOptions())) })
	case 4:
		twiceSame("case-insensitive Set", func() string { return wrote(xmldot.SetWithOptions(s, "r.a.@k", "V", foldOptions())) })
	case 5:
		twiceSame("case-insensitive Delete", func() string {
			out, err := xmldot.DeleteBytesWithOptions([]byte(s), "r.a.@k", foldOptions())
			return wrote(string(out), err)
		})
	case 6:
		twiceSame("case-insensitive filter", func() string { return shown(xmldot.GetWithOptions(s, "r.a.#(@k==1)#", foldOptions())) })
	case 7:
		twiceSame("case-insensitive field extraction", func() string { return shown(xmldot.GetWithOptions(s, "r.a.#.@m", foldOptions())) })
	case 8:
		twiceSame("case-insensitive wildcard", func() string { return shown(xmldot.GetWithOptions(s, "r.*.@k", foldOptions())) })
	case 9:
		twiceSame("case-insensitive recursive wildcard", func() string { return shown(xmldot.GetWithOptions(s, "**.a.@m", foldOptions())) })
	}
}

// Four attributes and a second write: the order in the written tag.
//
//verif:run C18 quick repeat=60
func hC18Order() {
	t := &tmpl{names: "abc", tlen: 1}
	s := t.expand("<r {1}='1' {2}='2' {3}='3' d='4'/>")
	vAssume(refParse(s).ok)
	twiceSame("writing an attribute of several", func() string { return wrote(xmldot.Set(s, "r.@b", "V")) })
}

// Children whose names differ only in case: Map and case-insensitive Map.
//
//verif:run C18 quick repeat=20
func hC18Map() {
	t := &tmpl{names: "aAb", tlen: 1}
	s := t.expand("<r><{1}>1</{1}><{2}>2</{2}>{t}<{3}>3</{3}></r>")
	vAssume(refParse(s).ok)
	show := func(m map[string]xmldot.Result) string {
		out := itoa(len(m))
		for _, k := range []string{"a", "A", "b", "%"} {
			if v, ok := m[k]; ok {
				out += k + "=" + shown(v) + ";"
			}
		}
		return out
	}
	r := xmldot.Get(s, "r")
	twiceSame("Map", func() string { return show(r.Map()) })
	twiceSame("case-insensitive Map", func() string { return show(r.MapWithOptions(foldOptions())) })
}

// Batch writes and modifiers.
//
//verif:run C18 n=0..5 quick repeat=30
func hC18Batch(n int) {
	t := &tmpl{names: "ab", tlen: 1}
	s := t.expand("<r><{1} k='1' m='2' {2}='3'>2</{1}><{2}>1</{2}><{3}>1</{3}></r>")
	vAssume(refParse(s).ok)
	switch n {
	case 0:
		twiceSame("SetMany", func() string {
			return wrote(xmldot.SetMany(s, []string{"r.a", "r.a.@k", "r.b.@z", "r.c"}, []interface{}{"1", 2, true, "x"}))
		})
	case 1:
		twiceSame("DeleteMany", func() string { return wrote(xmldot.DeleteMany(s, "r.a", "r.b.@m", "r.a", "r.b")) })
	case 2:
		twiceSame("@sort", func() string { return shown(xmldot.Get(s, "r.*|@sort")) })
	case 3:
		twiceSame("@pretty", func() string { return shown(xmldot.Get("<q>"+s+"</q>", "q|@pretty")) })
	case 4:
		twiceSame("@ugly", func() string { return shown(xmldot.Get("<q>"+s+"</q>", "q|@ugly")) })
	case 5:
		twiceSame("SetRaw", func() string { return wrote(xmldot.SetRaw(s, "r.a.-1", "<x k='1' m='2'/>")) })
	}
}

// Any document of n bytes: reads and writes.
//
//verif:run C18 n=5..6 quick
//verif:run C18 n=7..8 thorough budget=200
func hC18Full(n int) {
	s := vStr(n)
	twiceSame("Get", func() string { return shown(xmldot.Get(s, "a")) + shown(xmldot.Get(s, "a.@b")) })
	twiceSame("Set", func() string { return wrote(xmldot.Set(s, "a.@b", "V")) })
	twiceSame("Valid", func() string {
		if e := xmldot.ValidateWithError(s); e != nil {
			return e.Error()
		}
		return "valid"
	})
}
