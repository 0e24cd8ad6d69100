package main

var c14Shapes = []string{
	"<r><{1}>1</{1}><{2}>{t}</{2}><{3}/></r>",
	"<r><{1}><{2}>1</{2}></{1}>{t}<{3}><{4}>2</{4}><{2} {5}='x'/></{3}></r>",
	"<{1}><{2}><{3}>1</{3}></{2}></{1}><{4}>2</{4}>",
	"<r><!--<a/>--><{1}><![CDATA[<b/>]]><{2}/></{1}><?a <b/>?><{3} {4}=\"{v}\"/></r>",
	"<r><p:{1}>1<{2}>2</{2}></p:{1}><q:{3}/></r>",
	"<r><{1}><{1}><{1}>1</{1}></{1}><{2}/></{1}></r>",
	"<r><{1}/><{2}><{3}/><{3}/></{2}></r>",
	"<r><{1}><i><{2}>1</{2}></i><i><{3}>2</{3}><{3}>3</{3}></i></{1}></r>",
}

var c14Paths = []string{"r.*", "*", "*.a", "*.*", "*.*.b", "r.*.a", "r.*.%", "r.*.@a", "r.a.*", "r.*.*", "r.a.*.b",
	"**.a", "**.b.a", "**.*", "r.**.a", "r.**.b", "r.**.a.b", "r.**.a.%", "r.**.b.@a", "r.a.**.b", "r.**.*", "**.p:a", "r.*.**.a", "**", "r.**", "*.a.#.b", "r.*.a.#.%", "**.a.#.b", "r.**.b.#.@a", "*.a.#", "*.a.1", "r.*.b.0.a", "**.a.a.#"}

func c14Run(n int, names string, tlen int) {
	t := &tmpl{names: names, tlen: tlen}
	s := t.expand(c14Shapes[n])
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range c14Paths {
		checkGet(s, d, p)
	}
}

//verif:run C14 n=0..7 quick
func hC14Shape(n int) { c14Run(n, "ab", 1) }

//verif:run C14 n=0..7 thorough budget=200
func hC14ShapeDeep(n int) { c14Run(n, "abr:", 2) }

// n arbitrary bytes between two elements.
//
//verif:run C14 n=3..5 quick
//verif:run C14 n=6..8 thorough budget=300
func hC14Content(n int) {
	s := "<r><a>1</a>" + vStr(n) + "<c><a>2</a></c></r>"
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"r.*", "r.**.a", "r.*.a", "**.a", "**.*", "*.*"} {
		checkGet(s, d, p)
	}
}

//verif:run C14 n=4..6 quick
//verif:run C14 n=7..8 thorough budget=300
func hC14Full(n int) {
	s := vStr(n)
	d := refParse(s)
	vAssume(d.ok)
	for _, p := range []string{"*", "*.*", "**.a", "*.@a", "*.%", "**.*"} {
		checkGet(s, d, p)
	}
}
