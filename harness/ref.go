package main

// Reference reading of a document: an independent recogniser that also records
// where every element, attribute and text run lies. It is written from the
// property texts and shares no code with the library.

type rattr struct {
	name   string
	val    string // raw bytes between the quotes
	start  int    // first byte of the name
	vstart int    // first byte of the value
	vend   int    // the closing quote
}

type rnode struct {
	name    string
	start   int // '<' of the start tag
	openEnd int // just after '>' of the start tag
	close   int // '<' of the end tag (== openEnd when self-closing)
	end     int // just after the element
	self    bool
	attrs   []rattr
	kids    []*rnode
	text    []rspan // character data directly inside, in order
	all     []rspan // character data at any depth, in document order
	misc    []rspan // comments, CDATA sections, PIs and declarations directly inside
	parent  *rnode
}

type rspan struct{ from, to int }

type rdoc struct {
	ok    bool
	roots []*rnode
	misc  []rspan // outside every element
	depth int
	attrs int // most attributes on one element
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func isNameStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == ':'
}

func isNameByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' ||
		c == '_' || c == ':' || c == '-' || c == '.'
}

func hasAt(s string, i int, t string) bool {
	return i+len(t) <= len(s) && s[i:i+len(t)] == t
}

// find returns the position just after the first t at or after i, or -1.
func after(s string, i int, t string) int {
	for ; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return i + len(t)
		}
	}
	return -1
}

func nameEnd(s string, i int) int {
	for i < len(s) && isNameByte(s[i]) {
		i++
	}
	return i
}

func wsEnd(s string, i int) int {
	for i < len(s) && isWS(s[i]) {
		i++
	}
	return i
}

// miscEnd returns the end of the markup at i that is not an element tag
// (s[i] == '<', s[i+1] is '!' or '?'), or -1 when it does not end.
func miscEnd(s string, i int) int {
	if s[i+1] == '?' {
		return after(s, i+2, ">")
	}
	if hasAt(s, i+2, "--") {
		e := after(s, i+4, "--")
		if e < 0 || e >= len(s) || s[e] != '>' {
			return -1
		}
		return e + 1
	}
	if hasAt(s, i+2, "[CDATA[") {
		return after(s, i+9, "]]>")
	}
	if i+9 <= len(s) && lower(s[i+2:i+9]) == "doctype" {
		d := 0
		for j := i + 9; j < len(s); j++ {
			if s[j] == '[' {
				d++
			} else if s[j] == ']' {
				d--
			} else if s[j] == '>' && d == 0 {
				return j + 1
			}
		}
		return -1
	}
	return after(s, i+2, ">")
}

func addText(cur *rnode, from, to int) {
	if from >= to || cur == nil {
		return
	}
	cur.text = append(cur.text, rspan{from, to})
	for n := cur; n != nil; n = n.parent {
		n.all = append(n.all, rspan{from, to})
	}
}

func refParse(s string) *rdoc {
	d := &rdoc{}
	var cur *rnode
	depth := 0
	i, run := 0, 0
	for i < len(s) {
		c := s[i]
		if c != '<' {
			if cur == nil && !isWS(c) {
				return d
			}
			i++
			continue
		}
		addText(cur, run, i)
		at := i
		if i+1 >= len(s) {
			return d
		}
		if s[i+1] == '!' || s[i+1] == '?' {
			i = miscEnd(s, i)
			if i < 0 {
				return d
			}
			if cur != nil {
				cur.misc = append(cur.misc, rspan{at, i})
			} else {
				d.misc = append(d.misc, rspan{at, i})
			}
			run = i
			continue
		}
		if s[i+1] == '/' {
			e := nameEnd(s, i+2)
			if cur == nil || s[i+2:e] != cur.name {
				return d
			}
			i = wsEnd(s, e)
			if i >= len(s) || s[i] != '>' {
				return d
			}
			i++
			cur.close = at
			cur.end = i
			cur = cur.parent
			depth--
			run = i
			continue
		}
		if !isNameStart(s[i+1]) {
			return d
		}
		e := nameEnd(s, i+1)
		n := &rnode{name: s[i+1 : e], start: at, parent: cur}
		i = wsEnd(s, e)
		for i < len(s) && s[i] != '>' && s[i] != '/' {
			if !isNameStart(s[i]) {
				return d
			}
			e = nameEnd(s, i)
			a := rattr{name: s[i:e], start: i}
			i = wsEnd(s, e)
			if i >= len(s) || s[i] != '=' {
				return d
			}
			i = wsEnd(s, i+1)
			if i >= len(s) || s[i] != '"' && s[i] != '\'' {
				return d
			}
			q := s[i]
			i++
			a.vstart = i
			for i < len(s) && s[i] != q {
				i++
			}
			if i >= len(s) {
				return d
			}
			a.vend = i
			a.val = s[a.vstart:i]
			n.attrs = append(n.attrs, a)
			i = wsEnd(s, i+1)
		}
		if len(n.attrs) > d.attrs {
			d.attrs = len(n.attrs)
		}
		if i < len(s) && s[i] == '/' {
			n.self = true
			i++
		}
		if i >= len(s) || s[i] != '>' {
			return d
		}
		i++
		n.openEnd = i
		run = i
		if cur != nil {
			cur.kids = append(cur.kids, n)
		} else {
			d.roots = append(d.roots, n)
		}
		if n.self {
			n.close = i
			n.end = i
		} else {
			cur = n
			depth++
			if depth > d.depth {
				d.depth = depth
			}
		}
	}
	d.ok = cur == nil && len(d.roots) > 0
	return d
}

// refUnescape replaces the five predefined entities in one left-to-right pass.
func refUnescape(s string) string {
	out := ""
	for i := 0; i < len(s); {
		if s[i] == '&' {
			if hasAt(s, i, "&lt;") {
				out += "<"
				i += 4
				continue
			}
			if hasAt(s, i, "&gt;") {
				out += ">"
				i += 4
				continue
			}
			if hasAt(s, i, "&amp;") {
				out += "&"
				i += 5
				continue
			}
			if hasAt(s, i, "&quot;") {
				out += "\""
				i += 6
				continue
			}
			if hasAt(s, i, "&apos;") {
				out += "'"
				i += 6
				continue
			}
		}
		out += s[i : i+1]
		i++
	}
	return out
}

func refEscape(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<':
			out += "&lt;"
		case '>':
			out += "&gt;"
		case '&':
			out += "&amp;"
		case '"':
			out += "&quot;"
		case '\'':
			out += "&apos;"
		default:
			out += s[i : i+1]
		}
	}
	return out
}
