package main

// Templates: documents of a fixed shape whose names, texts and attribute values
// are symbolic.
//
//	{1}..{9}  an element or attribute name, one symbolic byte out of names
//	{t}       text of tlen symbolic bytes without '<'
//	{v}       attribute value of tlen symbolic bytes without '"'
//	{q}       attribute value of tlen symbolic bytes without '\''
//	{s}       one symbolic white space byte
//	{c}       comment text of tlen symbolic bytes without '-'
//	{d}       CDATA text of tlen symbolic bytes without ']'
//	{p}       processing-instruction text of tlen symbolic bytes without '>'
type tmpl struct {
	names string // alphabet of the one-byte names
	tlen  int
	vars  [10]string
	texts []string
}

func (t *tmpl) name(i int) string {
	if t.vars[i] == "" {
		t.vars[i] = string([]byte{vByteIn(t.names)})
	}
	return t.vars[i]
}

func without(n int, c byte) string {
	s := vStr(n)
	for i := 0; i < n; i++ {
		vAssume(s[i] != c)
	}
	return s
}

func (t *tmpl) expand(f string) string {
	out := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '{' {
			out += f[i : i+1]
			continue
		}
		c := f[i+1]
		i += 2
		piece := ""
		switch c {
		case 't':
			piece = without(t.tlen, '<')
		case 'v':
			piece = without(t.tlen, '"')
		case 'q':
			piece = without(t.tlen, '\'')
		case 's':
			piece = string([]byte{vByteIn(" \t\r\n")})
		case 'c':
			piece = without(t.tlen, '-')
		case 'd':
			piece = without(t.tlen, ']')
		case 'p':
			piece = without(t.tlen, '>')
		default:
			out += t.name(int(c - '0'))
			continue
		}
		t.texts = append(t.texts, piece)
		out += piece
	}
	return out
}
