package main

import "github.com/netascode/xmldot"

// checkValid compares all four validators with the reference recogniser.
func checkValid(s string) bool {
	want := refParse(s).ok
	b := []byte(s)
	got := xmldot.Valid(s)
	vAssert(got == want, "Valid reports exactly the accepted grammar")
	vAssert(xmldot.ValidBytes(b) == want, "ValidBytes reports exactly the accepted grammar")
	e1 := xmldot.ValidateWithError(s)
	vAssert((e1 == nil) == want, "ValidateWithError reports exactly the accepted grammar")
	e2 := xmldot.ValidateBytesWithError(b)
	vAssert((e2 == nil) == want, "ValidateBytesWithError reports exactly the accepted grammar")
	if e1 != nil && e2 != nil {
		vAssert(e1.Line == e2.Line && e1.Column == e2.Column && e1.Message == e2.Message, "both error forms describe the same problem")
		// the reported line and column denote a position of the document
		line, col, inside := 1, 0, e1.Line == 1 && e1.Column == 0
		for i := 0; i < len(s); i++ {
			if s[i] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
			if line == e1.Line && col == e1.Column {
				inside = true
			}
		}
		vAssert(inside, "the error position lies inside the document")
	}
	if want {
		vObs("valid")
	} else {
		vObs("invalid")
	}
	return want
}

//verif:run C03 n=0..8 quick
//verif:run C03 n=9..11 thorough
func hC03Full(n int) {
	checkValid(vStr(n))
}

// Longer documents: a fixed frame with symbolic holes, one per construct.
var c03Frames = [][3]string{
	{"<r ", "", "</r>"},
	{"<a b=", "", "/>"},
	{"<r><!--", "", "--></r>"},
	{"<r><![CDATA[", "", "]]></r>"},
	{"<!DOCTYPE", "", "><r/>"},
	{"<!doctype r[", "", "]><r/>"},
	{"<r><a>", "", "</a></r>"},
	{"<r><?", "", "?></r>"},
	{"<r><a", "", "></a ></r>"},
	{"<r/>", "", "<s/>"},
	{"<r></", "", ">"},
}

//verif:run C03 n=0..10 quick
func hC03Frame(n int) {
	f := c03Frames[n]
	checkValid(f[0] + vStr(5) + f[2])
}

//verif:run C03 n=0..10 thorough budget=120
func hC03FrameDeep(n int) {
	f := c03Frames[n]
	checkValid(f[0] + vStr(7) + f[2])
}
