package main

// Every path of up to three steps below a base, on documents whose names are
// symbolic. The steps are listed; a path is left out where its meaning is not
// part of the documented syntax (something after an attribute, text, count or
// field list, a field list after anything but a name or a filter).

type gstep struct {
	text string
	k    byte
	seg  rseg
}

func gcond(op, p, val string, all bool) rseg {
	return rseg{k: 'q', cond: refCond(op, p, val), all: all}
}

func gsteps() []gstep {
	out := []gstep{
		{"#(b)", 'q', gcond("", "b", "", false)},
		{"#(a==1)#", 'q', gcond("==", "a", "1", true)},
		{"#(@a!=x)", 'q', gcond("!=", "@a", "x", false)},
		{"#(@a)#", 'q', gcond("", "@a", "", true)},
	}
	for _, t := range []string{"a", "b", "*", "**", "0", "1", "#", "#.a", "#.@a", "#.%", "%", "@a"} {
		sg := steps(t)[0]
		out = append(out, gstep{t, sg.k, sg})
	}
	return out
}

// gfollows reports whether a step of kind k may follow one of kind p.
func gfollows(p, k byte) bool {
	switch p {
	case 'a', 't', 'n', 'f':
		return false
	case 'd':
		return k == 'e' || k == 'w'
	case 'e':
		return true
	}
	// after *, an index or a filter
	return k == 'e' || k == 'w' || k == 'd' || k == 'a' || k == 't' || k == 'q' || k == 'n' || k == 'i' || k == 'f' && p == 'q'
}

var gridShapes = []string{
	"<r><{1} a='x'><{2}>{t}</{2}>t</{1}><{3}/><{1}><{2} a='y'><{4}>1</{4}></{2}><a/></{1}></r>",
	"<{1}><{2}>1</{2}></{1}><{3} a='{q}'/><a><{2} a='1'>1<{4}/></{2}>u</a>",
	"<r><{1}><{2} a='x'/><{2}><{3}>{t}</{3}></{2}></{1}><{4} a='1'>1</{4}><b><a>1</a><b>2</b></b></r>",
}

// grid checks the paths that use one of the kinds.
func grid(n int, kinds string) {
	t := &tmpl{names: "ab", tlen: 1}
	if refFold {
		t.names = "aB"
	}
	s := t.expand(gridShapes[n/4])
	d := refParse(s)
	vAssume(d.ok)
	base, p0 := "r.", byte('w')
	segs := []rseg{{k: 'e', name: "r"}}
	if n/4 == 1 {
		base, segs = "", nil
	}
	if refFold && base != "" {
		base = "R."
	}
	g := gsteps()
	has := func(ks ...byte) bool {
		for _, k := range ks {
			for i := 0; i < len(kinds); i++ {
				if kinds[i] == k {
					return true
				}
			}
		}
		return false
	}
	if kinds == "eat" {
		// only paths without any other kind
		var plain []gstep
		for _, x := range g {
			if has(x.k) {
				plain = append(plain, x)
			}
		}
		g = plain
	}
	count := 0
	var walk func(p string, sg []rseg, last byte, used bool, depth int)
	walk = func(p string, sg []rseg, last byte, used bool, depth int) {
		for i, x := range g {
			if depth == 0 && i%4 != n%4 || !gfollows(last, x.k) {
				continue
			}
			q, sx, u := p+x.text, append(append([]rseg{}, sg...), x.seg), used || has(x.k)
			if u {
				checkPath(s, d, q, sx)
				count++
			}
			if depth < 2 || depth < 3 && vThorough() {
				walk(q+".", sx, x.k, u, depth+1)
			}
		}
	}
	walk(base, segs, p0, false, 0)
	vObsInt(count)
}

//verif:run C14 n=0..11 quick steps=40000000
func hC14Grid(n int) { grid(n, "wd") }

//verif:run C12 n=0..11 quick steps=40000000
func hC12Grid(n int) { grid(n, "q") }

//verif:run C11 n=0..11 quick steps=40000000
func hC11Grid(n int) { grid(n, "inf") }

//verif:run C10 n=0..11 quick steps=40000000
func hC10Grid(n int) { grid(n, "eat") }

//verif:run C16 n=0..11 quick steps=80000000
func hC16Grid(n int) {
	refFold = true
	defer func() { refFold = false }()
	grid(n, "eatinfwdq")
}
