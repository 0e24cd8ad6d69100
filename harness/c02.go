package main

import "github.com/netascode/xmldot"

// outcome checks what every write promises, whatever its arguments.
func outcome(s, out string, err error, what string) {
	if err == nil {
		vObs(out)
		return
	}
	vAssert(out == s, what+": a failed write returns its input")
	vAssert(sentinel(err) != nil, what+": the error wraps exactly one documented error")
	vObs("error")
}

// writes performs every write operation and checks the common promises.
func writes(s, p string) {
	ok := refParse(s).ok
	bad := func(err error, setLike bool) bool {
		return sentinel(err) == xmldot.ErrMalformedXML
	}
	out, err := xmldot.Set(s, p, "v")
	outcome(s, out, err, "Set")
	vAssert(ok || s == "" || bad(err, true), "Set refuses a malformed document with ErrMalformedXML")
	out, err = xmldot.Set(s, p, nil)
	outcome(s, out, err, "Set nil")
	vAssert(ok || bad(err, false), "Set nil refuses a malformed document with ErrMalformedXML")
	out, err = xmldot.SetRaw(s, p, "<x/>")
	outcome(s, out, err, "SetRaw")
	vAssert(ok || s == "" || bad(err, true), "SetRaw refuses a malformed document with ErrMalformedXML")
	out, err = xmldot.Delete(s, p)
	outcome(s, out, err, "Delete")
	vAssert(ok || bad(err, false), "Delete refuses a malformed document with ErrMalformedXML")
	out, err = xmldot.SetMany(s, []string{"a", p}, []any{"1", 2})
	outcome(s, out, err, "SetMany")
	vAssert(ok || s == "" || bad(err, true), "SetMany refuses a malformed document with ErrMalformedXML")
	out, err = xmldot.DeleteMany(s, p, "a")
	outcome(s, out, err, "DeleteMany")
	vAssert(ok || bad(err, false), "DeleteMany refuses a malformed document with ErrMalformedXML")
	o := &xmldot.Options{Indent: " "}
	out, err = xmldot.SetWithOptions(s, p, true, o)
	outcome(s, out, err, "SetWithOptions")
	vAssert(ok || s == "" || bad(err, true), "SetWithOptions refuses a malformed document with ErrMalformedXML")
	b, err := xmldot.DeleteBytesWithOptions([]byte(s), p, o)
	outcome(s, string(b), err, "DeleteBytesWithOptions")
	vAssert(ok || bad(err, false), "DeleteBytesWithOptions refuses a malformed document with ErrMalformedXML")
}

// Documents of n arbitrary bytes, valid or not.
//
//verif:run C02 n=0..6 quick
//verif:run C02 n=7..8 thorough budget=400
func hC02Doc(n int) {
	s := vStr(n)
	for _, p := range []string{"a", "a.b.c", "a.@b", "a.-1", "*", "a.1"} {
		writes(s, p)
	}
}

//verif:run C02 n=0..17 quick
func hC02Frame(n int) {
	s := c01Frames[n][0] + vStr(3) + c01Frames[n][1]
	for _, p := range []string{"a", "a.b", "a.@b", "a.b.-1"} {
		writes(s, p)
	}
}

//verif:run C02 n=0..17 thorough budget=300
func hC02FrameDeep(n int) {
	s := c01Frames[n][0] + vStr(5) + c01Frames[n][1]
	for _, p := range []string{"a", "a.b", "a.@b", "a.b.-1"} {
		writes(s, p)
	}
}

// Paths of n arbitrary bytes.
//
//verif:run C02 n=0..2 quick
//verif:run C02 n=3..3 thorough budget=900
func hC02Path(n int) {
	p := vStr(n)
	for _, s := range []string{"<a b='1'><b>2</b><b/></a>", "", "<a/>", "<a>"} {
		writes(s, p)
		if p == "" {
			_, err := xmldot.Set("<a/>", p, "v")
			vAssert(sentinel(err) == xmldot.ErrInvalidPath, "Set with an empty path is ErrInvalidPath")
			_, err = xmldot.Delete("<a/>", p)
			vAssert(sentinel(err) == xmldot.ErrInvalidPath, "Delete with an empty path is ErrInvalidPath")
		}
	}
}

//verif:run C02 n=0..17 quick
func hC02PFrame(n int) {
	p := c01PFrames[n][0] + vStr(1) + c01PFrames[n][1]
	for _, s := range []string{"<a b='1'><b>2</b><b/></a>", ""} {
		writes(s, p)
	}
}

//verif:run C02 n=0..17 thorough budget=200
func hC02PFrameDeep(n int) {
	p := c01PFrames[n][0] + vStr(2) + c01PFrames[n][1]
	for _, s := range []string{"<a b='1'><b>2</b><b/></a>", "", "<a/><a/>"} {
		writes(s, p)
	}
}

// A path of dots only has no segments.
//
//verif:run C02 n=0..4 quick
func hC02Dots(n int) {
	p := ""
	for i := 0; i < n; i++ {
		p += "."
	}
	for _, s := range []string{"<a/>", "<a>1</a>"} {
		out, err := xmldot.Set(s, p, "v")
		vAssert(out == s && sentinel(err) == xmldot.ErrInvalidPath, "Set without a path is ErrInvalidPath")
		out, err = xmldot.Delete(s, p)
		vAssert(out == s && sentinel(err) == xmldot.ErrInvalidPath, "Delete without a path is ErrInvalidPath")
	}
}

// Value types.
//
//verif:run C02 quick
func hC02Types() {
	s := []string{"<a>1</a>", "", "<a", "<a/>"}[vChoice(4)]
	p := []string{"a", "a.b", "a.@b", "a.-1", "", "a.-2", "a.%"}[vChoice(7)]
	vals := []any{1, int64(2), 3.5, float32(1), true, "x", []byte("<y/>"), nil, uint(3), []string{"x"}, map[string]int{}, struct{}{}, int8(1), 'c', []byte(nil), (*int)(nil)}
	k := vChoice(len(vals))
	out, err := xmldot.Set(s, p, vals[k])
	outcome(s, out, err, "Set")
	if k >= 8 && k != 14 && s != "<a" && p != "" {
		vAssert(sentinel(err) == xmldot.ErrInvalidValue, "an unsupported type is ErrInvalidValue")
	}
	b, err := xmldot.SetBytes(nil, p, vals[k])
	vAssert(b == nil && sentinel(err) == xmldot.ErrMalformedXML, "nil bytes are malformed")
	out, err = xmldot.SetMany(s, []string{p}, nil)
	vAssert(err != nil && out == s && sentinel(err) != nil, "SetMany with different lengths fails")
	out, err = xmldot.SetMany(s, nil, nil)
	vAssert(err == nil && out == s, "SetMany of nothing changes nothing")
	out, err = xmldot.DeleteMany(s)
	vAssert(err == nil && out == s, "DeleteMany of nothing changes nothing")
}
