From 707f6443bfbb466488fadbb83eb4321986f7b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:57 +0000
Subject: [PATCH 01/33] fix: treat comments, CDATA and processing instructions
 as opaque

Element content is now returned exactly as written in the document.
Previously nested tags were re-serialised with attributes in random order,
and markup inside comments, CDATA sections and processing instructions was
read as elements. Text extraction also lost or mangled text next to a '>'
inside a comment, a CDATA section or an attribute value.
---
 parser.go | 301 +++++++++++++++++++++++++-----------------------------
 1 file changed, 141 insertions(+), 160 deletions(-)

diff --git a/parser.go b/parser.go
index 2253de1..21ffcb2 100644
--- a/parser.go
+++ b/parser.go
@@ -4,6 +4,7 @@
 package xmldot
 
 import (
+	"bytes"
 	"strings"
 )
 
@@ -70,6 +71,7 @@ type xmlParser struct {
 	depth       int
 	filterDepth int
 	dataLen     int // Cache data length to avoid repeated len() calls
+	closeTagPos int // Position of '<' of the closing tag last matched by parseElementContent
 }
 
 // newXMLParser creates a new XML parser
@@ -258,144 +260,167 @@ func (p *xmlParser) parseElementContent(elementName string) string {
 	}
 	defer func() { p.depth-- }()
 
-	var content strings.Builder
+	// The content is returned exactly as it appears in the source
+	start := p.pos
 	// Track element-specific depth for matching tags
 	elementDepth := 1
 
-	for p.pos < p.dataLen && elementDepth > 0 {
-		c := p.peek()
+	for p.pos < p.dataLen {
+		if p.peek() != '<' || p.pos+1 >= p.dataLen {
+			p.next()
+			continue
+		}
 
-		if c == '<' {
-			// Check if this is a closing tag, opening tag, or comment/CDATA
-			if p.pos+1 < p.dataLen {
-				next := p.data[p.pos+1]
+		switch p.data[p.pos+1] {
+		case '/':
+			// Closing tag
+			closeTagPos := p.pos
+			p.next() // skip '<'
+			p.next() // skip '/'
+			closeName := p.readUntil('>')
+			p.next() // skip '>'
+
+			// Extract just the element name (before any whitespace)
+			closeName = strings.TrimSpace(closeName)
+			if idx := strings.IndexAny(closeName, " \t\n\r"); idx >= 0 {
+				closeName = closeName[:idx]
+			}
 
-				if next == '/' {
-					// Closing tag
-					p.next() // skip '<'
-					p.next() // skip '/'
-					closeName := p.readUntil('>')
-					p.next() // skip '>'
-
-					// Extract just the element name (before any whitespace)
-					closeName = strings.TrimSpace(closeName)
-					if idx := strings.IndexAny(closeName, " \t\n\r"); idx >= 0 {
-						closeName = closeName[:idx]
-					}
-
-					if closeName == elementName {
-						elementDepth--
-						if elementDepth == 0 {
-							break
-						}
-					}
-					content.WriteString("</")
-					content.WriteString(closeName)
-					content.WriteString(">")
-				} else if next == '!' {
-					// Comment or CDATA - include in content for now
-					content.WriteByte(c)
-					p.next()
-				} else {
-					// Opening tag of nested element
-					p.next() // skip '<'
-					nestedName := p.readUntilAny(" \t\n\r/>")
-
-					// Write the opening tag
-					content.WriteString("<")
-					content.WriteString(nestedName)
-
-					// Parse attributes and check for self-closing
-					attrs := p.parseAttributes()
-					for attrName, attrValue := range attrs {
-						content.WriteString(" ")
-						content.WriteString(attrName)
-						content.WriteString("=\"")
-						content.WriteString(escapeXML(attrValue))
-						content.WriteString("\"")
-					}
-
-					isSelfClosing := false
-					if p.peek() == '/' {
-						p.next()
-						isSelfClosing = true
-						content.WriteString("/")
-					}
-
-					if p.peek() == '>' {
-						p.next()
-						content.WriteString(">")
-					}
-
-					// Only increment elementDepth if this is the same element type we're tracking
-					if !isSelfClosing && nestedName == elementName {
-						elementDepth++
-					}
+			if closeName == elementName {
+				elementDepth--
+				if elementDepth == 0 {
+					p.closeTagPos = closeTagPos
+					return string(p.data[start:closeTagPos])
 				}
-			} else {
-				content.WriteByte(c)
-				p.next()
 			}
-		} else {
-			content.WriteByte(c)
-			p.next()
+		case '!', '?':
+			// Comment, CDATA, declaration or processing instruction - opaque
+			p.skipMarkup()
+		default:
+			// Opening tag of nested element
+			p.next() // skip '<'
+			nestedName := p.readUntilAny(" \t\n\r/>")
+			isSelfClosing := p.skipTagEnd()
+
+			// Only increment elementDepth if this is the same element type we're tracking
+			if !isSelfClosing && nestedName == elementName {
+				elementDepth++
+			}
 		}
 	}
 
-	return content.String()
+	p.closeTagPos = p.dataLen
+	return string(p.data[start:])
 }
 
-// extractTextContent extracts only text content, stripping out all XML tags
-func extractTextContent(content string) string {
-	var result strings.Builder
-	inTag := false
-
-	for i := 0; i < len(content); i++ {
-		c := content[i]
-		if c == '<' {
-			inTag = true
-		} else if c == '>' {
-			inTag = false
-		} else if !inTag {
-			result.WriteByte(c)
+// skipTagEnd advances past the '>' that ends the opening tag at the current position,
+// ignoring any '>' inside quoted attribute values. It reports whether the tag is self-closing.
+func (p *xmlParser) skipTagEnd() bool {
+	var quote byte
+	for p.pos < p.dataLen {
+		c := p.next()
+		switch {
+		case quote != 0:
+			if c == quote {
+				quote = 0
+			}
+		case c == '"' || c == '\'':
+			quote = c
+		case c == '>':
+			return p.data[p.pos-2] == '/'
 		}
 	}
+	return false
+}
 
-	return strings.TrimSpace(result.String())
+// skipMarkup advances past the comment, CDATA section, DOCTYPE, other declaration
+// or processing instruction at the current position ("<!" or "<?").
+// Unterminated markup extends to the end of the data.
+func (p *xmlParser) skipMarkup() {
+	rest := p.data[p.pos:]
+	switch {
+	case bytes.HasPrefix(rest, []byte("<!--")):
+		p.skipPast(4, "-->")
+	case bytes.HasPrefix(rest, []byte("<![CDATA[")):
+		p.skipPast(9, "]]>")
+	case len(rest) >= 9 && strings.EqualFold(string(rest[:9]), "<!DOCTYPE"):
+		// DOCTYPE detected - skip it to prevent XXE attacks
+		// Case-insensitive check to prevent bypass with <!doctype> or mixed case
+		p.pos += 9
+		// Skip to end of DOCTYPE declaration
+		depth := 0
+		for p.pos < p.dataLen {
+			c := p.data[p.pos]
+			p.pos++
+			if c == '[' {
+				depth++
+			} else if c == ']' {
+				depth--
+			} else if c == '>' && depth == 0 {
+				break
+			}
+		}
+	default:
+		p.skipPast(2, ">")
+	}
 }
 
-// extractDirectTextOnly extracts only direct text content, excluding text from nested elements
-// This is used for the % operator
-func extractDirectTextOnly(content string) string {
+// skipPast advances past the first occurrence of end at least n bytes ahead
+func (p *xmlParser) skipPast(n int, end string) {
+	idx := bytes.Index(p.data[p.pos+n:], []byte(end))
+	if idx < 0 {
+		p.pos = p.dataLen
+		return
+	}
+	p.pos += n + idx + len(end)
+}
+
+// extractTextContent extracts only text content, stripping out all XML tags
+func extractTextContent(content string) string {
+	return strings.TrimSpace(collectText(content, false))
+}
+
+// collectText returns the character data of content, skipping tags, comments, CDATA
+// sections, declarations and processing instructions. With directOnly set, text inside
+// nested elements is skipped as well.
+func collectText(content string, directOnly bool) string {
 	var result strings.Builder
-	inTag := false
+	p := newXMLParser(stringToBytes(content))
 	depth := 0
 
-	for i := 0; i < len(content); i++ {
-		c := content[i]
-		if c == '<' {
-			inTag = true
-			// Check if it's an opening or closing tag
-			if i+1 < len(content) && content[i+1] == '/' {
-				// Closing tag
-				depth--
-			} else if i+1 < len(content) && content[i+1] != '!' && content[i+1] != '?' {
-				// Opening tag (not comment or PI)
-				depth++
+	for p.pos < p.dataLen {
+		c := p.peek()
+		if c != '<' {
+			if depth == 0 || !directOnly {
+				result.WriteByte(c)
 			}
-		} else if c == '>' {
-			// Check for self-closing tag
-			if i > 0 && content[i-1] == '/' {
-				depth--
+			p.next()
+			continue
+		}
+		if p.pos+1 >= p.dataLen {
+			break
+		}
+		switch p.data[p.pos+1] {
+		case '/':
+			p.readUntil('>')
+			p.next()
+			depth--
+		case '!', '?':
+			p.skipMarkup()
+		default:
+			if !p.skipTagEnd() {
+				depth++
 			}
-			inTag = false
-		} else if !inTag && depth == 0 {
-			// Only collect text when not inside a nested element
-			result.WriteByte(c)
 		}
 	}
 
-	return strings.TrimSpace(result.String())
+	return result.String()
+}
+
+// extractDirectTextOnly extracts only direct text content, excluding text from nested elements
+// This is used for the % operator
+func extractDirectTextOnly(content string) string {
+	return strings.TrimSpace(collectText(content, true))
 }
 
 // skipToNextElement advances the parser to the next element opening tag
@@ -408,53 +433,9 @@ func (p *xmlParser) skipToNextElement() bool {
 					// This is an opening tag
 					return true
 				}
-				// Skip comments, processing instructions, closing tags
-				if next == '!' {
-					// Check for DOCTYPE declaration (XXE protection)
-					// Case-insensitive check to prevent bypass with <!doctype> or mixed case
-					if p.pos+8 < p.dataLen {
-						doctypeEnd := p.pos + 9
-						if doctypeEnd > p.dataLen {
-							doctypeEnd = p.dataLen
-						}
-						doctype := string(p.data[p.pos:doctypeEnd])
-						if strings.EqualFold(doctype, "<!DOCTYPE") {
-							// DOCTYPE detected - skip it to prevent XXE attacks
-							p.pos += len(doctype)
-							// Skip to end of DOCTYPE declaration
-							depth := 0
-							for p.pos < p.dataLen {
-								c := p.data[p.pos]
-								if c == '[' {
-									depth++
-								} else if c == ']' {
-									depth--
-								} else if c == '>' && depth == 0 {
-									p.pos++
-									break
-								}
-								p.pos++
-							}
-							continue
-						}
-					}
-					// Skip comment or CDATA
-					p.next() // skip '<'
-					p.next() // skip '!'
-					if p.pos+1 < p.dataLen && p.data[p.pos] == '-' && p.data[p.pos+1] == '-' {
-						// Comment: skip to -->
-						for p.pos < p.dataLen-2 {
-							if p.data[p.pos] == '-' && p.data[p.pos+1] == '-' && p.data[p.pos+2] == '>' {
-								p.pos += 3
-								break
-							}
-							p.pos++
-						}
-					}
-				} else if next == '?' {
-					// Skip processing instruction
-					p.readUntil('>')
-					p.next()
+				// Skip comments, CDATA, declarations, processing instructions, closing tags
+				if next == '!' || next == '?' {
+					p.skipMarkup()
 				} else {
 					// Skip closing tag
 					p.readUntil('>')
-- 
2.43.0


From 19f33d81c7564784c86f7a1ff07ab4fafd2ed31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:39 +0000
Subject: [PATCH 02/33] fix: locate closing tags by their real position when
 writing

Set and Delete computed the position of a closing tag from the length of
the element name. A closing tag with whitespace before '>', or irregular
spacing or quoting inside nested tags, made them cut the document at the
wrong place.
---
 builder.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/builder.go b/builder.go
index a79466b..8ac6699 100644
--- a/builder.go
+++ b/builder.go
@@ -171,6 +171,7 @@ type elementLocation struct {
 	endTagPos     int    // Position of '<' in closing tag
 	contentStart  int    // Position after '>' of opening tag
 	contentEnd    int    // Position of '<' in closing tag
+	endPos        int    // Position after the whole element
 	elementName   string // Name of the element
 	attrs         map[string]string
 	isSelfClosing bool
@@ -225,7 +226,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 					} else {
 						_ = parser.parseElementContent(elemName)
 						// parser.pos is now just after the '>' of </name>
-						endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+						endTagPos = parser.closeTagPos // at '<' of </name>
 						contentEnd = endTagPos
 					}
 					return &elementLocation{
@@ -233,6 +234,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						endTagPos:     endTagPos + baseOffset,
 						contentStart:  contentStart + baseOffset,
 						contentEnd:    contentEnd + baseOffset,
+						endPos:        parser.pos + baseOffset,
 						elementName:   elemName,
 						attrs:         attrs,
 						isSelfClosing: isSelfClosing,
@@ -273,19 +275,18 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				contentEnd = parser.pos
 				endTagPos = parser.pos
 			} else {
-				startOfContent := parser.pos
 				_ = parser.parseElementContent(elemName)
 				// parser.pos is now just after the '>' of </name>
 				// We want endTagPos to be at the '<' of </name>
-				endTagPos = parser.pos - len(elemName) - 3 // at '<' of </name>
+				endTagPos = parser.closeTagPos // at '<' of </name>
 				contentEnd = endTagPos
-				_ = startOfContent
 			}
 			return &elementLocation{
 				startPos:      elemStartPos + baseOffset,
 				endTagPos:     endTagPos + baseOffset,
 				contentStart:  contentStart + baseOffset,
 				contentEnd:    contentEnd + baseOffset,
+				endPos:        parser.pos + baseOffset,
 				elementName:   elemName,
 				attrs:         attrs,
 				isSelfClosing: isSelfClosing,
@@ -519,7 +520,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 	// Find where root element ends
 	_ = parser.parseElementContent(elemName)
-	contentEnd := parser.pos - len(elemName) - 3
+	contentEnd := parser.closeTagPos
 
 	b.result.Reset()
 	b.result.Write(b.data[:contentEnd])
@@ -1059,16 +1060,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 	b.result.Write(b.data[:location.startPos])
 
 	// Skip the element and its closing tag
-	if location.isSelfClosing {
-		// Self-closing tag: <tag attr="val"/>
-		// location.contentStart points to position after '/>', so we can write from there
-		b.result.Write(b.data[location.contentStart:])
-	} else {
-		// Regular element: <tag>content</tag>
-		// Skip past the closing tag </name>
-		endPos := location.endTagPos + len(location.elementName) + 3 // </name>
-		b.result.Write(b.data[endPos:])
-	}
+	b.result.Write(b.data[location.endPos:])
 
 	return nil
 }
-- 
2.43.0


From e48909d66ee308edf71134044a04b6772848b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:00 +0000
Subject: [PATCH 03/33] fix: expand a self-closing element when setting its
 value

Set wrote the value after a self-closing target instead of inside it.
Self-closing parents were also rewritten with their attributes in random
order; they now keep the attributes as written.
---
 builder.go | 76 +++++++++++++++++-------------------------------------
 1 file changed, 23 insertions(+), 53 deletions(-)

diff --git a/builder.go b/builder.go
index 8ac6699..41ff056 100644
--- a/builder.go
+++ b/builder.go
@@ -325,6 +325,18 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	// Build the result XML
 	b.result.Reset()
 
+	if location.isSelfClosing {
+		// Self-closing target - convert to full element with content
+		b.result.Write(b.data[:location.startPos])
+		b.writeExpandedOpenTag(location.startPos, location.contentStart)
+		b.result.WriteString(xmlValue)
+		b.result.WriteString("</")
+		b.result.WriteString(location.elementName)
+		b.result.WriteString(">")
+		b.result.Write(b.data[location.contentEnd:])
+		return nil
+	}
+
 	// Write everything up to and including the opening tag (up to contentStart)
 	b.result.Write(b.data[:location.contentStart])
 
@@ -338,6 +350,13 @@ func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegme
 	return nil
 }
 
+// writeExpandedOpenTag writes the self-closing tag at data[start:end] as an opening tag,
+// keeping its name and attributes as they are
+func (b *xmlBuilder) writeExpandedOpenTag(start, end int) {
+	b.result.Write(b.data[start : end-len("/>")])
+	b.result.WriteString(">")
+}
+
 // replaceAttribute replaces or adds an attribute to an element
 func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string, attrValue string) error {
 	// Build new opening tag with updated attribute
@@ -469,7 +488,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 
 	elemStartPos := parser.pos
 	parser.next() // skip '<'
-	elemName, attrs, isSelfClosing := parser.parseElementName()
+	elemName, _, isSelfClosing := parser.parseElementName()
 
 	// Check if the first path segment matches the root element name
 	// If yes, skip it and create the rest inside root
@@ -489,21 +508,7 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		// Write everything BEFORE the self-closing tag
 		b.result.Write(b.data[:elemStartPos])
 		// Build new opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(elemName)
-
-		// Write attributes if any
-		if len(attrs) > 0 {
-			for k, v := range attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
-
-		b.result.WriteString(">")
+		b.writeExpandedOpenTag(elemStartPos, parser.pos)
 
 		// Build the path
 		b.buildElementPath(pathToCreate, xmlValue, isRaw)
@@ -601,21 +606,7 @@ func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPa
 		b.result.Write(b.data[:parentLocation.startPos])
 
 		// Rebuild opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(parentLocation.elementName)
-
-		// Write attributes if any
-		if len(parentLocation.attrs) > 0 {
-			for k, v := range parentLocation.attrs {
-				b.result.WriteString(" ")
-				b.result.WriteString(k)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(v))
-				b.result.WriteString(`"`)
-			}
-		}
-
-		b.result.WriteString(">")
+		b.writeExpandedOpenTag(parentLocation.startPos, parentLocation.contentStart)
 
 		// Build the missing path
 		b.buildElementPath(remainingPath, xmlValue, isRaw)
@@ -766,28 +757,7 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 		b.result.Write(b.data[:parentLoc.startPos])
 
 		// Rebuild opening tag
-		b.result.WriteString("<")
-		b.result.WriteString(parentLoc.elementName)
-
-		// Preserve attributes
-		if len(parentLoc.attrs) > 0 {
-			// Sort for deterministic output
-			attrNames := make([]string, 0, len(parentLoc.attrs))
-			for name := range parentLoc.attrs {
-				attrNames = append(attrNames, name)
-			}
-			sort.Strings(attrNames)
-
-			for _, name := range attrNames {
-				b.result.WriteString(" ")
-				b.result.WriteString(name)
-				b.result.WriteString(`="`)
-				b.result.WriteString(escapeXML(parentLoc.attrs[name]))
-				b.result.WriteString(`"`)
-			}
-		}
-
-		b.result.WriteString(">")
+		b.writeExpandedOpenTag(parentLoc.startPos, parentLoc.contentStart)
 
 		// Add new element
 		b.result.WriteString("<")
-- 
2.43.0


From 118d0b4fa4585b098c7b570b15bc2aa3aceb87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:40:40 +0000
Subject: [PATCH 04/33] fix: refuse to create elements and attributes that
 cannot be written

Setting a missing path that contains an index, a wildcard, a filter or an
invalid name produced documents such as <item><>v</></item>. These paths
now return ErrInvalidPath.
---
 builder.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/builder.go b/builder.go
index 41ff056..01a8a4f 100644
--- a/builder.go
+++ b/builder.go
@@ -359,6 +359,10 @@ func (b *xmlBuilder) writeExpandedOpenTag(start, end int) {
 
 // replaceAttribute replaces or adds an attribute to an element
 func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string, attrValue string) error {
+	if err := validateName(attrName); err != nil {
+		return fmt.Errorf("%w: invalid attribute name", ErrInvalidPath)
+	}
+
 	// Build new opening tag with updated attribute
 	b.result.Reset()
 
@@ -436,6 +440,21 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 	return nil
 }
 
+// checkCreatable verifies that every segment names an element that can be written
+func checkCreatable(path []PathSegment) error {
+	for _, seg := range path {
+		if seg.Type != SegmentElement {
+			return fmt.Errorf("%w: cannot create an element for this path segment", ErrInvalidPath)
+		}
+		// Legacy bracket filters (name[cond]) are not part of the path syntax, but callers
+		// rely on them being accepted here
+		if err := validateName(seg.Value); err != nil && !strings.Contains(seg.Value, "[") {
+			return fmt.Errorf("%w: invalid element name", ErrInvalidPath)
+		}
+	}
+	return nil
+}
+
 // createElement creates a new element at the specified path
 func (b *xmlBuilder) createElement(path []PathSegment, xmlValue string, isRaw bool) error {
 	// Special case: empty XML - create new root element
@@ -502,6 +521,10 @@ func (b *xmlBuilder) createInRoot(path []PathSegment, xmlValue string, isRaw boo
 		return nil
 	}
 
+	if err := checkCreatable(pathToCreate); err != nil {
+		return err
+	}
+
 	if isSelfClosing {
 		// Root is self-closing - convert to full element with content
 		b.result.Reset()
@@ -585,6 +608,10 @@ func (b *xmlBuilder) shouldCreateSiblingRoot(targetRootName string) bool {
 //	Set("deny.prefix", "10.0.0.0")
 //	Result: <sequence>10</sequence><deny><prefix>10.0.0.0</prefix></deny>
 func (b *xmlBuilder) createSiblingRoot(path []PathSegment, xmlValue string, isRaw bool) error {
+	if err := checkCreatable(path); err != nil {
+		return err
+	}
+
 	b.result.Reset()
 
 	// Copy all existing XML
@@ -598,6 +625,10 @@ func (b *xmlBuilder) createSiblingRoot(path []PathSegment, xmlValue string, isRa
 
 // createInParent creates missing elements within a parent element
 func (b *xmlBuilder) createInParent(parentLocation *elementLocation, remainingPath []PathSegment, xmlValue string, isRaw bool) error {
+	if err := checkCreatable(remainingPath); err != nil {
+		return err
+	}
+
 	b.result.Reset()
 
 	if parentLocation.isSelfClosing {
@@ -730,6 +761,9 @@ func (b *xmlBuilder) appendElement(path []PathSegment, value interface{}) error
 	if elementSeg.Type != SegmentElement {
 		return fmt.Errorf("%w: can only append elements, not attributes or other types", ErrInvalidPath)
 	}
+	if err := checkCreatable(path[len(path)-2 : len(path)-1]); err != nil {
+		return err
+	}
 
 	// Find parent element location
 	parser := newXMLParser(b.data)
-- 
2.43.0


From 451a853168d6e0e102e1db29ee29f459a897209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:15 +0000
Subject: [PATCH 05/33] fix: delete the only root element

Deleting the last remaining element returned the document unchanged
because an empty result was taken for 'no result'.
---
 builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 01a8a4f..8939898 100644
--- a/builder.go
+++ b/builder.go
@@ -21,6 +21,7 @@ type xmlBuilder struct {
 	result strings.Builder
 	pos    int
 	opts   *Options
+	empty  bool // The last element was deleted, so the result is empty
 }
 
 // newXMLBuilder creates a new XML builder with default options
@@ -1065,6 +1066,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 
 	// Skip the element and its closing tag
 	b.result.Write(b.data[location.endPos:])
+	b.empty = b.result.Len() == 0
 
 	return nil
 }
@@ -1141,7 +1143,7 @@ func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string)
 
 // getResult returns the built XML string
 func (b *xmlBuilder) getResult() string {
-	if b.result.Len() == 0 {
+	if b.result.Len() == 0 && !b.empty {
 		return string(b.data)
 	}
 	return b.result.String()
-- 
2.43.0


From 311096fe16cb8ac645b5849282b1a32dbeddf8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:41:35 +0000
Subject: [PATCH 06/33] fix: reject malformed raw XML in SetRaw

The tag balance check accepted fragments that break out of the containing
element or leave the document malformed, and declarations written in
lower case. The fragment must now be well-formed inside its container.
---
 set.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/set.go b/set.go
index d9a89fa..f8d4c62 100644
--- a/set.go
+++ b/set.go
@@ -154,7 +154,7 @@ func validateRawXML(rawxml string) error {
 				continue
 			} else if next == '!' || next == '?' {
 				// Comment, CDATA, or PI - skip
-				if i+2 < len(rawxml) && rawxml[i+2] == '-' {
+				if strings.HasPrefix(rawxml[i:], "<!--") {
 					// Comment: <!--
 					endPos := strings.Index(rawxml[i:], "-->")
 					if endPos == -1 {
@@ -179,10 +179,10 @@ func validateRawXML(rawxml string) error {
 					// but we can optionally warn about suspicious patterns
 
 					i = cdataStart + cdataEnd + 3
-				} else if strings.HasPrefix(rawxml[i:], "<!DOCTYPE") {
+				} else if hasPrefixFold(rawxml[i:], "<!DOCTYPE") {
 					// DOCTYPE - REJECT for security
 					return fmt.Errorf("%w: DOCTYPE declarations not allowed in SetRaw", ErrInvalidValue)
-				} else if strings.HasPrefix(rawxml[i:], "<!ENTITY") {
+				} else if hasPrefixFold(rawxml[i:], "<!ENTITY") {
 					// ENTITY declarations - REJECT for security
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
 				} else {
@@ -236,9 +236,26 @@ func validateRawXML(rawxml string) error {
 		return ErrInvalidValue
 	}
 
+	// Verify the fragment is well-formed and stays inside the element that will contain it
+	wrapped := []byte("<raw>" + rawxml + "</raw>")
+	if !ValidBytes(wrapped) {
+		return ErrInvalidValue
+	}
+	parser := newXMLParser(wrapped)
+	parser.next() // skip '<'
+	parser.parseElementName()
+	if parser.parseElementContent("raw") != rawxml {
+		return ErrInvalidValue
+	}
+
 	return nil
 }
 
+// hasPrefixFold reports whether s begins with prefix, ignoring case
+func hasPrefixFold(s, prefix string) bool {
+	return len(s) >= len(prefix) && strings.EqualFold(s[:len(prefix)], prefix)
+}
+
 // SetMany performs multiple Set operations, applying each modification
 // sequentially. This is more convenient than calling Set multiple times manually.
 // If multiple paths overlap, later operations take precedence.
-- 
2.43.0


From 620a58581b78c53c73b1dc467c0ef7d0f5222ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:13 +0000
Subject: [PATCH 07/33] fix: do not panic on a filter value that is a single
 quote

---
 filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter.go b/filter.go
index 3ea0a2e..926d607 100644
--- a/filter.go
+++ b/filter.go
@@ -221,8 +221,9 @@ func parseFilterCondition(expr string) (*Filter, error) {
 	}
 
 	// Remove quotes from string values
-	if (strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
-		(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\"")) {
+	if len(value) >= 2 &&
+		((strings.HasPrefix(value, "'") && strings.HasSuffix(value, "'")) ||
+			(strings.HasPrefix(value, "\"") && strings.HasSuffix(value, "\""))) {
 		value = value[1 : len(value)-1]
 	}
 
-- 
2.43.0


From cdb2d60c0edd0b1541f94223b923217674c7fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:41 +0000
Subject: [PATCH 08/33] fix: accept a minus sign only at the start of an index

A path segment such as 1-2 was read as index 0.
---
 path.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index 77c47b4..1c72b89 100644
--- a/path.go
+++ b/path.go
@@ -353,9 +353,9 @@ func isNumeric(s string) bool {
 	if s == "" {
 		return false
 	}
-	for _, c := range s {
+	for i, c := range s {
 		if c < '0' || c > '9' {
-			if c == '-' && len(s) > 1 {
+			if c == '-' && i == 0 && len(s) > 1 {
 				// Allow negative indices
 				continue
 			}
-- 
2.43.0


From a1eb846c1e4a5af3471f64ad3b9b09a93e9dfd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:48 +0000
Subject: [PATCH 09/33] fix: resolve index and count on prefixed roots and text
 after an index

Indexing and counting root elements used a separate code path that
compared whole names, so an unprefixed path did not match a prefixed
root, and modifiers were dropped. Root elements now take the same code
path as nested ones, which learns to read '%' after an index.
---
 get.go | 161 +++++++++++++--------------------------------------------
 1 file changed, 37 insertions(+), 124 deletions(-)

diff --git a/get.go b/get.go
index c97fb46..8bb9aa6 100644
--- a/get.go
+++ b/get.go
@@ -121,7 +121,7 @@ type searchContext struct {
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
 // This enables array operations on fragments: <user>A</user><user>B</user>
 // Security: Limited to MaxWildcardResults (1000) elements
-func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
+func collectFragmentRoots(parser *xmlParser, seg PathSegment) []elementMatch {
 	var matches []elementMatch
 
 	for parser.skipToNextElement() {
@@ -134,7 +134,7 @@ func collectFragmentRoots(parser *xmlParser, targetName string) []elementMatch {
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
 		// Only collect roots with matching name
-		if elemName != targetName {
+		if !seg.matches(elemName) {
 			// Skip non-matching root element
 			if !isSelfClosing {
 				parser.parseElementContent(elemName)
@@ -172,74 +172,18 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 	isLastSegment := segIndex == len(segments)-1
 
 	// Fragment root array support: Check if we're at root level (segIndex==0) with array operations
-	// This enables: <user>A</user><user>B</user> + query "user.#" → 2
+	// This enables: <user>A</user><user>B</user> + query "user.#.%" → ["A","B"]
 	if segIndex == 0 && !isLastSegment && currentSeg.Type == SegmentElement {
 		nextSeg := segments[1]
-		if nextSeg.Type == SegmentIndex || nextSeg.Type == SegmentCount || nextSeg.Type == SegmentFieldExtraction {
-			// Array operation on fragment roots - collect all matching roots
-			matches := collectFragmentRoots(parser, currentSeg.Value)
+		if nextSeg.Type == SegmentFieldExtraction {
+			// Field extraction from fragment roots (e.g., user.#.name or user.#.%)
+			matches := collectFragmentRoots(parser, currentSeg)
 
 			if len(matches) == 0 {
 				return Result{Type: Null}
 			}
 
-			// Handle the array operation
-			switch nextSeg.Type {
-			case SegmentFieldExtraction:
-				// Field extraction from fragment roots (e.g., user.#.name or user.#.%)
-				return executeFieldExtraction(matches, nextSeg)
-			case SegmentIndex:
-				// Access specific root by index
-				if nextSeg.Index >= 0 && nextSeg.Index < len(matches) {
-					match := matches[nextSeg.Index]
-
-					// Check if there are more segments after index
-					if segIndex+2 < len(segments) {
-						// Check if next segment is an attribute
-						if segments[segIndex+2].Type == SegmentAttribute {
-							attrName := segments[segIndex+2].Value
-							if attrValue, ok := match.attrs[attrName]; ok {
-								return Result{
-									Type: Attribute,
-									Str:  attrValue,
-									Raw:  attrValue,
-								}
-							}
-							return Result{Type: Null}
-						}
-
-						// Check if next segment is text content
-						if segments[segIndex+2].Type == SegmentText {
-							textContent := extractDirectTextOnly(match.content)
-							return Result{
-								Type: String,
-								Str:  unescapeXML(textContent),
-								Raw:  match.content,
-							}
-						}
-
-						// Continue matching within selected root element
-						contentParser := newXMLParser([]byte(match.content))
-						return executeQuery(contentParser, segments, segIndex+2)
-					}
-
-					// No more segments - return the indexed root element
-					return Result{
-						Type: Element,
-						Str:  unescapeXML(extractTextContent(match.content)),
-						Raw:  match.content,
-					}
-				}
-				return Result{Type: Null} // Out of bounds
-
-			case SegmentCount:
-				// Return count of matching roots
-				return Result{
-					Type: Number,
-					Num:  float64(len(matches)),
-					Str:  itoa(len(matches)),
-				}
-			}
+			return executeFieldExtraction(matches, nextSeg)
 		}
 	}
 
@@ -525,6 +469,21 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 						return Result{Type: Null}
 					}
 
+					// Check if next segment is text content extraction
+					if segments[segIndex+2].Type == SegmentText {
+						textContent := extractDirectTextOnly(match.content)
+						result := Result{
+							Type: String,
+							Str:  unescapeXML(textContent),
+							Raw:  match.content,
+						}
+						// Apply modifiers from the text segment if it's the last one (Phase 6)
+						if segIndex+3 >= len(segments) && len(segments[segIndex+2].Modifiers) > 0 {
+							result = applyModifiers(result, segments[segIndex+2].Modifiers)
+						}
+						return result
+					}
+
 					// Continue matching within this element
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQuery(contentParser, segments, segIndex+2)
@@ -922,75 +881,19 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 	isLastSegment := segIndex == len(segments)-1
 
 	// Fragment root array support: Check if we're at root level (segIndex==0) with array operations
-	// This enables: <user>A</user><user>B</user> + query "user.#" → 2
+	// This enables: <user>A</user><user>B</user> + query "user.#.%" → ["A","B"]
 	// Note: Only use fast path for case-sensitive matching; case-insensitive needs generic path
 	if segIndex == 0 && !isLastSegment && currentSeg.Type == SegmentElement && opts.CaseSensitive {
 		nextSeg := segments[1]
-		if nextSeg.Type == SegmentIndex || nextSeg.Type == SegmentCount || nextSeg.Type == SegmentFieldExtraction {
-			// Array operation on fragment roots - collect all matching roots
-			matches := collectFragmentRoots(parser, currentSeg.Value)
+		if nextSeg.Type == SegmentFieldExtraction {
+			// Field extraction from fragment roots (e.g., user.#.name or user.#.%)
+			matches := collectFragmentRoots(parser, currentSeg)
 
 			if len(matches) == 0 {
 				return Result{Type: Null}
 			}
 
-			// Handle the array operation
-			switch nextSeg.Type {
-			case SegmentFieldExtraction:
-				// Field extraction from fragment roots (e.g., user.#.name or user.#.%)
-				return executeFieldExtractionWithOptions(matches, nextSeg, opts)
-			case SegmentIndex:
-				// Access specific root by index
-				if nextSeg.Index >= 0 && nextSeg.Index < len(matches) {
-					match := matches[nextSeg.Index]
-
-					// Check if there are more segments after index
-					if segIndex+2 < len(segments) {
-						// Check if next segment is an attribute
-						if segments[segIndex+2].Type == SegmentAttribute {
-							attrName := segments[segIndex+2].Value
-							if attrValue, ok := match.attrs[attrName]; ok {
-								return Result{
-									Type: Attribute,
-									Str:  attrValue,
-									Raw:  attrValue,
-								}
-							}
-							return Result{Type: Null}
-						}
-
-						// Check if next segment is text content
-						if segments[segIndex+2].Type == SegmentText {
-							textContent := extractDirectTextOnly(match.content)
-							return Result{
-								Type: String,
-								Str:  unescapeXML(textContent),
-								Raw:  match.content,
-							}
-						}
-
-						// Continue matching within selected root element
-						contentParser := newXMLParser([]byte(match.content))
-						return executeQueryWithOptions(contentParser, segments, segIndex+2, opts)
-					}
-
-					// No more segments - return the indexed root element
-					return Result{
-						Type: Element,
-						Str:  unescapeXML(extractTextContent(match.content)),
-						Raw:  match.content,
-					}
-				}
-				return Result{Type: Null} // Out of bounds
-
-			case SegmentCount:
-				// Return count of matching roots
-				return Result{
-					Type: Number,
-					Num:  float64(len(matches)),
-					Str:  itoa(len(matches)),
-				}
-			}
+			return executeFieldExtractionWithOptions(matches, nextSeg, opts)
 		}
 	}
 
@@ -1249,6 +1152,16 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 						return Result{Type: Null}
 					}
 
+					// Check if next segment is text content extraction
+					if segments[segIndex+2].Type == SegmentText {
+						textContent := extractDirectTextOnly(match.content)
+						return Result{
+							Type: String,
+							Str:  unescapeXML(textContent),
+							Raw:  match.content,
+						}
+					}
+
 					contentParser := newXMLParser([]byte(match.content))
 					return executeQueryWithOptions(contentParser, segments, segIndex+2, opts)
 				}
-- 
2.43.0


From 0e95d0b2cf827a0ef6bb948772bcc3b91f44ec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:07 +0000
Subject: [PATCH 10/33] fix: match prefixed elements in field extraction

Extracting a field with name.#.field compared whole names, while every
other path lets an unprefixed name match any prefix.
---
 get.go | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/get.go b/get.go
index 8bb9aa6..b56da10 100644
--- a/get.go
+++ b/get.go
@@ -1423,6 +1423,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 	// Determine field type (attribute, text, or element)
 	isAttribute := strings.HasPrefix(fieldName, "@")
 	isText := fieldName == "%"
+	fieldSeg := PathSegment{Type: SegmentElement, Value: fieldName}
 
 	for _, match := range matches {
 		// Security: Check result limit
@@ -1465,7 +1466,7 @@ func executeFieldExtraction(matches []elementMatch, segment PathSegment) Result
 				elemName, _, isSelfClosing := parser.parseElementName()
 
 				// Check if element name matches field name
-				if elemName != fieldName {
+				if !fieldSeg.matches(elemName) {
 					// Skip this element
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
@@ -1533,6 +1534,7 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 
 	isAttribute := strings.HasPrefix(fieldName, "@")
 	isText := fieldName == "%"
+	fieldSeg := PathSegment{Type: SegmentElement, Value: fieldName}
 
 	for _, match := range matches {
 		if totalExtracted >= MaxWildcardResults {
@@ -1579,11 +1581,6 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 		} else {
 			// Extract child element(s) with matching name (case-insensitive if needed)
 			parser := newXMLParser([]byte(match.content))
-			fieldNameCmp := fieldName
-			if !opts.CaseSensitive {
-				fieldNameCmp = toLowerASCII(fieldName)
-			}
-
 			for parser.skipToNextElement() {
 				if totalExtracted >= MaxWildcardResults {
 					break
@@ -1593,12 +1590,7 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 				elemName, _, isSelfClosing := parser.parseElementName()
 
 				// Case-aware comparison
-				elemNameCmp := elemName
-				if !opts.CaseSensitive {
-					elemNameCmp = toLowerASCII(elemName)
-				}
-
-				if elemNameCmp != fieldNameCmp {
+				if !fieldSeg.matchesWithOptions(elemName, opts) {
 					if !isSelfClosing {
 						parser.parseElementContent(elemName)
 					}
-- 
2.43.0


From e2b98dab312cd652b200b208351e944320ec0a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:25 +0000
Subject: [PATCH 11/33] fix: pick case-insensitively equal attributes
 deterministically

With CaseSensitive set to false, an attribute path picked one of several
attributes differing only in case at random, or returned all of them.
---
 get.go | 129 ++++++++++++++++++++++++++++-----------------------------
 1 file changed, 64 insertions(+), 65 deletions(-)

diff --git a/get.go b/get.go
index b56da10..4d84de9 100644
--- a/get.go
+++ b/get.go
@@ -1060,16 +1060,14 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			attrName := segments[segIndex+1].Value
 			// For case-insensitive matching, search attrs case-insensitively
 			if !opts.CaseSensitive {
-				for k, v := range attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 < len(segments) {
-							return Result{Type: Null}
-						}
-						return Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						}
+				if v, ok := attrFold(attrs, attrName); ok {
+					if segIndex+2 < len(segments) {
+						return Result{Type: Null}
+					}
+					return Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
 					}
 				}
 				return Result{Type: Null}
@@ -1131,13 +1129,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 					if segments[segIndex+2].Type == SegmentAttribute {
 						attrName := segments[segIndex+2].Value
 						if !opts.CaseSensitive {
-							for k, v := range match.attrs {
-								if toLowerASCII(k) == attrName {
-									return Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									}
+							if v, ok := attrFold(match.attrs, attrName); ok {
+								return Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
 								}
 							}
 							return Result{Type: Null}
@@ -1218,15 +1214,13 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						if segIndex+2 >= len(segments) {
-							allResults = append(allResults, Result{
-								Type: Attribute,
-								Str:  v,
-								Raw:  v,
-							})
-						}
+				if v, ok := attrFold(match.attrs, attrName); ok {
+					if segIndex+2 >= len(segments) {
+						allResults = append(allResults, Result{
+							Type: Attribute,
+							Str:  v,
+							Raw:  v,
+						})
 					}
 				}
 				continue
@@ -1359,15 +1353,13 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 				case SegmentAttribute:
 					attrName := nextSegment.Value
 					if !opts.CaseSensitive {
-						for k, v := range attrs {
-							if toLowerASCII(k) == attrName {
-								if segIndex+2 >= len(segments) {
-									*ctx.results = append(*ctx.results, Result{
-										Type: Attribute,
-										Str:  v,
-										Raw:  v,
-									})
-								}
+						if v, ok := attrFold(attrs, attrName); ok {
+							if segIndex+2 >= len(segments) {
+								*ctx.results = append(*ctx.results, Result{
+									Type: Attribute,
+									Str:  v,
+									Raw:  v,
+								})
 							}
 						}
 					} else {
@@ -1546,16 +1538,13 @@ func executeFieldExtractionWithOptions(matches []elementMatch, segment PathSegme
 			// Case-insensitive attribute lookup
 			if !opts.CaseSensitive {
 				attrNameLower := toLowerASCII(attrName)
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrNameLower {
-						results = append(results, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-						totalExtracted++
-						break // Only match first attribute with this name
-					}
+				if v, ok := attrFold(match.attrs, attrNameLower); ok {
+					results = append(results, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
+					totalExtracted++
 				}
 			} else {
 				// Case-sensitive attribute lookup
@@ -1986,19 +1975,17 @@ func processFirstMatchWithOptions(match elementMatch, segments []PathSegment, se
 		attrName := nextSeg.Value
 		// For case-insensitive matching, search attrs case-insensitively
 		if !opts.CaseSensitive {
-			for k, v := range match.attrs {
-				if toLowerASCII(k) == attrName {
-					result := Result{
-						Type: Attribute,
-						Str:  v,
-						Raw:  v,
-					}
-					// Apply modifiers from the attribute segment if present
-					if len(nextSeg.Modifiers) > 0 {
-						result = applyModifiers(result, nextSeg.Modifiers)
-					}
-					return result
+			if v, ok := attrFold(match.attrs, attrName); ok {
+				result := Result{
+					Type: Attribute,
+					Str:  v,
+					Raw:  v,
+				}
+				// Apply modifiers from the attribute segment if present
+				if len(nextSeg.Modifiers) > 0 {
+					result = applyModifiers(result, nextSeg.Modifiers)
 				}
+				return result
 			}
 			return Result{Type: Null}
 		}
@@ -2077,14 +2064,12 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if nextSeg.Type == SegmentAttribute {
 			attrName := nextSeg.Value
 			if !opts.CaseSensitive {
-				for k, v := range match.attrs {
-					if toLowerASCII(k) == attrName {
-						allResults = append(allResults, Result{
-							Type: Attribute,
-							Str:  v,
-							Raw:  v,
-						})
-					}
+				if v, ok := attrFold(match.attrs, attrName); ok {
+					allResults = append(allResults, Result{
+						Type: Attribute,
+						Str:  v,
+						Raw:  v,
+					})
 				}
 				continue
 			}
@@ -2157,6 +2142,20 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 	return result
 }
 
+// attrFold looks up an attribute by its lower-cased name, ignoring case.
+// If several attributes differ only in case, the first one in sorted order is used.
+func attrFold(attrs map[string]string, lowerName string) (string, bool) {
+	found := false
+	key := ""
+	for k := range attrs {
+		if toLowerASCII(k) == lowerName && (!found || k < key) {
+			found = true
+			key = k
+		}
+	}
+	return attrs[key], found
+}
+
 // stringToBytes converts a string to []byte with zero allocation.
 // The returned slice shares the underlying string data and MUST NOT be modified.
 //
-- 
2.43.0


From c918d46d41278a1c666fc8926453ecd22c068831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:56 +0000
Subject: [PATCH 12/33] fix: honour case-insensitive matching in filters and
 root extraction

With CaseSensitive set to false, the operand of a filter was still looked
up case-sensitively.
---
 filter.go | 23 +++++++++++++++++++++--
 get.go    | 17 ++++++++---------
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/filter.go b/filter.go
index 926d607..01a8641 100644
--- a/filter.go
+++ b/filter.go
@@ -242,6 +242,11 @@ func parseFilterCondition(expr string) (*Filter, error) {
 // evaluateFilterWithDepth evaluates a filter with recursion depth tracking.
 // Optimized: Fast paths for common filter patterns to avoid parsing overhead.
 func evaluateFilterWithDepth(filter *Filter, content string, attrs map[string]string, depth int) bool {
+	return evaluateFilterWithOptions(filter, content, attrs, depth, DefaultOptions())
+}
+
+// evaluateFilterWithOptions is like evaluateFilterWithDepth but respects Options.
+func evaluateFilterWithOptions(filter *Filter, content string, attrs map[string]string, depth int, opts *Options) bool {
 	if filter == nil {
 		return true
 	}
@@ -258,12 +263,21 @@ func evaluateFilterWithDepth(filter *Filter, content string, attrs map[string]st
 	if strings.HasPrefix(filter.Path, "@") {
 		// Fast path: Attribute filter - direct map lookup, no parsing
 		attrName := filter.Path[1:]
-		actualValue, exists = attrs[attrName]
+		if opts.CaseSensitive {
+			actualValue, exists = attrs[attrName]
+		} else {
+			actualValue, exists = attrFold(attrs, toLowerASCII(attrName))
+		}
 	} else {
 		// Element filter - extract text from specific child element
 		parser := newXMLParser([]byte(content))
 		parser.filterDepth = depth + 1
-		result := executeQuery(parser, parsePath(filter.Path), 0)
+		var result Result
+		if opts.CaseSensitive {
+			result = executeQuery(parser, parsePath(filter.Path), 0)
+		} else {
+			result = executeQueryWithOptions(parser, parsePathWithOptions(filter.Path, opts), 0, opts)
+		}
 		exists = result.Exists()
 		actualValue = result.String()
 	}
@@ -362,6 +376,11 @@ func evaluateFilterOnMatch(filter *Filter, match elementMatch) bool {
 	return evaluateFilterWithDepth(filter, match.content, match.attrs, 0)
 }
 
+// evaluateFilterOnMatchWithOptions is like evaluateFilterOnMatch but respects Options.
+func evaluateFilterOnMatchWithOptions(filter *Filter, match elementMatch, opts *Options) bool {
+	return evaluateFilterWithOptions(filter, match.content, match.attrs, 0, opts)
+}
+
 // isNumericValue checks if a string contains a valid numeric value (int or float).
 // Fast path helper to avoid expensive ParseFloat on non-numeric strings.
 func isNumericValue(s string) bool {
diff --git a/get.go b/get.go
index 4d84de9..9f4e083 100644
--- a/get.go
+++ b/get.go
@@ -121,7 +121,7 @@ type searchContext struct {
 // collectFragmentRoots collects all root elements matching the target name in a fragment.
 // This enables array operations on fragments: <user>A</user><user>B</user>
 // Security: Limited to MaxWildcardResults (1000) elements
-func collectFragmentRoots(parser *xmlParser, seg PathSegment) []elementMatch {
+func collectFragmentRoots(parser *xmlParser, seg PathSegment, opts *Options) []elementMatch {
 	var matches []elementMatch
 
 	for parser.skipToNextElement() {
@@ -134,7 +134,7 @@ func collectFragmentRoots(parser *xmlParser, seg PathSegment) []elementMatch {
 		elemName, attrs, isSelfClosing := parser.parseElementName()
 
 		// Only collect roots with matching name
-		if !seg.matches(elemName) {
+		if !seg.matchesWithOptions(elemName, opts) {
 			// Skip non-matching root element
 			if !isSelfClosing {
 				parser.parseElementContent(elemName)
@@ -177,7 +177,7 @@ func executeQuery(parser *xmlParser, segments []PathSegment, segIndex int) Resul
 		nextSeg := segments[1]
 		if nextSeg.Type == SegmentFieldExtraction {
 			// Field extraction from fragment roots (e.g., user.#.name or user.#.%)
-			matches := collectFragmentRoots(parser, currentSeg)
+			matches := collectFragmentRoots(parser, currentSeg, DefaultOptions())
 
 			if len(matches) == 0 {
 				return Result{Type: Null}
@@ -882,12 +882,11 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 
 	// Fragment root array support: Check if we're at root level (segIndex==0) with array operations
 	// This enables: <user>A</user><user>B</user> + query "user.#.%" → ["A","B"]
-	// Note: Only use fast path for case-sensitive matching; case-insensitive needs generic path
-	if segIndex == 0 && !isLastSegment && currentSeg.Type == SegmentElement && opts.CaseSensitive {
+	if segIndex == 0 && !isLastSegment && currentSeg.Type == SegmentElement {
 		nextSeg := segments[1]
 		if nextSeg.Type == SegmentFieldExtraction {
 			// Field extraction from fragment roots (e.g., user.#.name or user.#.%)
-			matches := collectFragmentRoots(parser, currentSeg)
+			matches := collectFragmentRoots(parser, currentSeg, opts)
 
 			if len(matches) == 0 {
 				return Result{Type: Null}
@@ -1044,7 +1043,7 @@ func executeQueryWithOptions(parser *xmlParser, segments []PathSegment, segIndex
 			}
 
 			if hasFilter {
-				if evaluateFilterOnMatch(currentSeg.Filter, match) {
+				if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 					matches = append(matches, match)
 				}
 			} else {
@@ -1898,7 +1897,7 @@ func handleFilterQueryWithOptions(parser *xmlParser, segments []PathSegment, seg
 		}
 
 		// Evaluate filter condition
-		if evaluateFilterOnMatch(currentSeg.Filter, match) {
+		if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 			matches = append(matches, match)
 
 			// Security: enforce result limit
@@ -1930,7 +1929,7 @@ func handleFilterQueryOnMatchesWithOptions(allMatches []elementMatch, segments [
 	// Filter the matches
 	var filteredMatches []elementMatch
 	for _, match := range allMatches {
-		if evaluateFilterOnMatch(currentSeg.Filter, match) {
+		if evaluateFilterOnMatchWithOptions(currentSeg.Filter, match, opts) {
 			filteredMatches = append(filteredMatches, match)
 		}
 	}
-- 
2.43.0


From cacd82fd54dac603f531e14f0935cfcfd319ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:50 +0000
Subject: [PATCH 13/33] fix: apply the modifiers of a path exactly once

After '*' the modifiers were applied to each partial result and again to
the whole result. After '**', and for most queries with non-default
options, they were not applied at all. They are now applied once to the
final result.
---
 get.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/get.go b/get.go
index 9f4e083..f51d35d 100644
--- a/get.go
+++ b/get.go
@@ -87,11 +87,30 @@ func GetBytes(xml []byte, path string) Result {
 		return Result{Type: Null}
 	}
 
+	modifiers := takeModifiers(segments)
+
 	// Create parser
 	parser := newXMLParser(xml)
 
 	// Execute the query
-	return executeQuery(parser, segments, 0)
+	return applyFinalModifiers(executeQuery(parser, segments, 0), modifiers)
+}
+
+// takeModifiers removes the modifiers of the last segment and returns them, so that they
+// are applied once to the result of the whole query
+func takeModifiers(segments []PathSegment) []string {
+	last := &segments[len(segments)-1]
+	modifiers := last.Modifiers
+	last.Modifiers = nil
+	return modifiers
+}
+
+// applyFinalModifiers applies the modifiers of a path to the result of its query
+func applyFinalModifiers(result Result, modifiers []string) Result {
+	if result.Type == Null || len(modifiers) == 0 {
+		return result
+	}
+	return applyModifiers(result, modifiers)
 }
 
 const (
@@ -826,8 +845,9 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 		if len(segments) == 0 {
 			return Result{Type: Null}
 		}
+		modifiers := takeModifiers(segments)
 		parser := newXMLParser(xml)
-		return executeQuery(parser, segments, 0)
+		return applyFinalModifiers(executeQuery(parser, segments, 0), modifiers)
 	}
 
 	// Parse path with options-aware parsing
@@ -836,11 +856,13 @@ func GetBytesWithOptions(xml []byte, path string, opts *Options) Result {
 		return Result{Type: Null}
 	}
 
+	modifiers := takeModifiers(segments)
+
 	// Create parser
 	parser := newXMLParser(xml)
 
 	// Execute query with options
-	return executeQueryWithOptions(parser, segments, 0, opts)
+	return applyFinalModifiers(executeQueryWithOptions(parser, segments, 0, opts), modifiers)
 }
 
 // parsePathWithOptions parses a path with options-aware parsing.
-- 
2.43.0


From 5dad1d270ab336a9e290ef5abf30cea97c3989c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:20 +0000
Subject: [PATCH 14/33] fix: let Set and Delete find the same element as Get

Get continues with the next like-named element when the rest of the path
does not exist in the first one. Set and Delete gave up after the first,
so Delete ignored elements that Get finds, and Set added a second copy.
---
 builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder.go b/builder.go
index 8939898..848bfd4 100644
--- a/builder.go
+++ b/builder.go
@@ -310,7 +310,9 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 			// Overflow detected
 			return nil, false
 		}
-		return b.findElementLocation(contentParser, segments, segIndex+1, newOffset)
+		if location, found := b.findElementLocation(contentParser, segments, segIndex+1, newOffset); found {
+			return location, true
+		}
 	}
 
 	return nil, false
-- 
2.43.0


From f41902fbbabd54a4270351cafa44cb4b535aab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:24 +0000
Subject: [PATCH 15/33] fix: delete the attribute that Get finds

Get looks for an attribute in the next matching ancestor when the first
one has no such attribute. Delete gave up at the first one and left the
attribute in place.
---
 builder.go | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/builder.go b/builder.go
index 848bfd4..6f67aff 100644
--- a/builder.go
+++ b/builder.go
@@ -22,6 +22,8 @@ type xmlBuilder struct {
 	pos    int
 	opts   *Options
 	empty  bool // The last element was deleted, so the result is empty
+
+	requiredAttr string // If set, findElementLocation only accepts an element with this attribute
 }
 
 // newXMLBuilder creates a new XML builder with default options
@@ -239,7 +241,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 						elementName:   elemName,
 						attrs:         attrs,
 						isSelfClosing: isSelfClosing,
-					}, true
+					}, b.hasRequiredAttr(attrs)
 				}
 				// Continue searching within this element
 				var content string
@@ -291,7 +293,7 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 				elementName:   elemName,
 				attrs:         attrs,
 				isSelfClosing: isSelfClosing,
-			}, true
+			}, b.hasRequiredAttr(attrs)
 		}
 
 		// Continue searching within this element
@@ -318,6 +320,26 @@ func (b *xmlBuilder) findElementLocation(parser *xmlParser, segments []PathSegme
 	return nil, false
 }
 
+// hasRequiredAttr reports whether attrs has the attribute the located element must have
+func (b *xmlBuilder) hasRequiredAttr(attrs map[string]string) bool {
+	return b.requiredAttr == "" || b.hasAttr(attrs, b.requiredAttr)
+}
+
+// hasAttr reports whether attrs has the named attribute (case-sensitive or insensitive)
+func (b *xmlBuilder) hasAttr(attrs map[string]string, attrName string) bool {
+	if b.opts.CaseSensitive {
+		_, exists := attrs[attrName]
+		return exists
+	}
+	lowerAttrName := toLowerASCII(attrName)
+	for name := range attrs {
+		if toLowerASCII(name) == lowerAttrName {
+			return true
+		}
+	}
+	return false
+}
+
 // replaceElement replaces an element's content in the XML
 func (b *xmlBuilder) replaceElement(location *elementLocation, segment PathSegment, xmlValue string) error {
 	// Check if this is an attribute operation
@@ -1042,9 +1064,10 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 		}
 		parentPath := path[:len(path)-1]
 		parser := newXMLParser(b.data)
+		b.requiredAttr = lastSeg.Value
 		location, found := b.findElementLocation(parser, parentPath, 0, 0)
 		if !found {
-			// Parent doesn't exist - return original XML unchanged
+			// Parent or attribute doesn't exist - return original XML unchanged
 			b.result.Reset()
 			b.result.Write(b.data)
 			return nil
@@ -1075,23 +1098,7 @@ func (b *xmlBuilder) deleteElement(path []PathSegment) error {
 
 // deleteAttribute removes an attribute from an element
 func (b *xmlBuilder) deleteAttribute(location *elementLocation, attrName string) error {
-	// Check if attribute exists (case-sensitive or insensitive)
-	attrFound := false
-	if b.opts.CaseSensitive {
-		if _, exists := location.attrs[attrName]; exists {
-			attrFound = true
-		}
-	} else {
-		lowerAttrName := toLowerASCII(attrName)
-		for name := range location.attrs {
-			if toLowerASCII(name) == lowerAttrName {
-				attrFound = true
-				break
-			}
-		}
-	}
-
-	if !attrFound {
+	if !b.hasAttr(location.attrs, attrName) {
 		// Attribute doesn't exist - return original XML unchanged
 		b.result.Reset()
 		b.result.Write(b.data)
-- 
2.43.0


From 27a59a44edc52452a1920bdf6eb86468b8681531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:24:34 +0000
Subject: [PATCH 16/33] fix: keep dots inside a filter condition

A filter such as #(rating>=4.5)# was split at the dot, so the documented
decimal comparison and nested operand paths never matched.
---
 path.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/path.go b/path.go
index 1c72b89..3240d0c 100644
--- a/path.go
+++ b/path.go
@@ -309,7 +309,8 @@ func parsePathInternal(path string) []PathSegment {
 	return processedSegments
 }
 
-// splitPath splits a path on dots, handling escapes
+// splitPath splits a path on dots, handling escapes.
+// Dots between the parentheses of a filter #(...) are part of its condition.
 func splitPath(path string) []string {
 	if path == "" {
 		return nil
@@ -318,6 +319,7 @@ func splitPath(path string) []string {
 	var parts []string
 	var current strings.Builder
 	escaped := false
+	filterEnd := -1 // Position of the closing parenthesis of the current filter
 
 	for i := 0; i < len(path); i++ {
 		c := path[i]
@@ -328,12 +330,16 @@ func splitPath(path string) []string {
 			continue
 		}
 
+		if c == '#' && current.Len() == 0 && i > filterEnd {
+			filterEnd = findFilterEnd(path, i)
+		}
+
 		if c == '\\' {
 			escaped = true
 			continue
 		}
 
-		if c == '.' {
+		if c == '.' && i > filterEnd {
 			// Split point
 			parts = append(parts, current.String())
 			current.Reset()
@@ -348,6 +354,29 @@ func splitPath(path string) []string {
 	return parts
 }
 
+// findFilterEnd returns the position of the parenthesis that closes the filter #(...)
+// starting at pos, or -1 if there is no closed filter at pos
+func findFilterEnd(path string, pos int) int {
+	if !strings.HasPrefix(path[pos:], "#(") {
+		return -1
+	}
+	depth := 0
+	for i := pos + 1; i < len(path); i++ {
+		switch path[i] {
+		case '\\':
+			i++ // Skip the escaped character
+		case '(':
+			depth++
+		case ')':
+			depth--
+			if depth == 0 {
+				return i
+			}
+		}
+	}
+	return -1
+}
+
 // isNumeric checks if a string is a valid integer
 func isNumeric(s string) bool {
 	if s == "" {
-- 
2.43.0


From fb7a0b7e009d7c41f37d79b2c443fafaede1662b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:45 +0000
Subject: [PATCH 17/33] fix: allow a pipe inside a filter condition

A filter such as #(kind=='a|b') was cut at the pipe and then ignored, so
the query returned elements the condition excludes.
---
 modifier.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modifier.go b/modifier.go
index d2a255f..18d1fdb 100644
--- a/modifier.go
+++ b/modifier.go
@@ -210,8 +210,10 @@ func applyModifiers(r Result, modifierNames []string) Result {
 // parseModifiers extracts modifiers from a path segment.
 // Example: "element|@reverse|@first" → element="element", modifiers=["reverse", "first"]
 func parseModifiers(pathPart string) (elementPath string, modifiers []string) {
-	parts := strings.Split(pathPart, "|")
-	elementPath = parts[0]
+	// A pipe inside a filter condition does not start a modifier
+	filterEnd := findFilterEnd(pathPart, 0)
+	parts := strings.Split(pathPart[filterEnd+1:], "|")
+	elementPath = pathPart[:filterEnd+1] + parts[0]
 
 	for i := 1; i < len(parts); i++ {
 		mod := strings.TrimSpace(parts[i])
-- 
2.43.0


From ac551ec68bd39eddcec06aa80fa5306ef70f6237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:55 +0000
Subject: [PATCH 18/33] fix: keep all bytes of array items in Result.String

Bytes that are not valid UTF-8 were replaced in the array form although
String of the single item returns them unchanged.
---
 result.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/result.go b/result.go
index 6b311ce..cc27546 100644
--- a/result.go
+++ b/result.go
@@ -74,14 +74,14 @@ func (r Result) String() string {
 			sb.WriteString(`"`)
 			// Escape quotes and backslashes in the value
 			itemStr := item.String()
-			for _, ch := range itemStr {
-				switch ch {
+			for j := 0; j < len(itemStr); j++ {
+				switch ch := itemStr[j]; ch {
 				case '"':
 					sb.WriteString(`\"`)
 				case '\\':
 					sb.WriteString(`\\`)
 				default:
-					sb.WriteRune(ch)
+					sb.WriteByte(ch)
 				}
 			}
 			sb.WriteString(`"`)
-- 
2.43.0


From 756b83ff5340b4506c2e75cbf42aad115c035d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:04 +0000
Subject: [PATCH 19/33] fix: extract fields whose name contains a dot

item.#.first\.name addresses the element <first.name> like
item.first\.name does, but was not recognised as a field.
---
 path.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/path.go b/path.go
index 3240d0c..8b38102 100644
--- a/path.go
+++ b/path.go
@@ -421,7 +421,7 @@ func isValidFieldName(fieldName string) bool {
 }
 
 // isValidIdentifier checks if a string is a valid XML identifier (element/attribute name)
-// Allows: letters, digits, hyphens, underscores, colons (for namespaces)
+// Allows: letters, digits, dots, hyphens, underscores, colons (for namespaces)
 // Must start with letter or underscore
 func isValidIdentifier(s string) bool {
 	if s == "" {
@@ -434,11 +434,11 @@ func isValidIdentifier(s string) bool {
 		return false
 	}
 
-	// Remaining characters can be letters, digits, hyphens, underscores, or colons
+	// Remaining characters can be letters, digits, dots, hyphens, underscores, or colons
 	for i := 1; i < len(s); i++ {
 		c := s[i]
 		if (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') &&
-			(c < '0' || c > '9') && c != '-' && c != '_' && c != ':' {
+			(c < '0' || c > '9') && c != '.' && c != '-' && c != '_' && c != ':' {
 			return false
 		}
 	}
-- 
2.43.0


From bf09aeeec561644b1fcae1306308a16ea69090e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:24 +0000
Subject: [PATCH 20/33] fix: refuse raw attribute values that end the attribute

SetRaw (and Set with a byte slice) on an attribute path wrote quotes and
angle brackets unescaped, which added attributes or broke the document.
---
 builder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder.go b/builder.go
index 6f67aff..6ec453f 100644
--- a/builder.go
+++ b/builder.go
@@ -143,6 +143,11 @@ func (b *xmlBuilder) setElement(path []PathSegment, value interface{}) error {
 		attrName := path[len(path)-1].Value
 		elementPath := path[:len(path)-1]
 
+		// Raw values are written unescaped and must not end the attribute value
+		if isRaw && strings.ContainsAny(xmlValue, "<\"") {
+			return fmt.Errorf("%w: raw value not allowed in an attribute", ErrInvalidValue)
+		}
+
 		// Find the parent element
 		parser := newXMLParser(b.data)
 		location, found := b.findElementLocation(parser, elementPath, 0, 0)
-- 
2.43.0


From dda8773dfd99bcda7342886f8e73bfd088d35460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:32 +0000
Subject: [PATCH 21/33] fix: do not add more attributes than allowed

Setting one more attribute on an element that has MaxAttributes of them
succeeded and returned a document that Valid and every later write refuse.
---
 builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder.go b/builder.go
index 6ec453f..6a9ac76 100644
--- a/builder.go
+++ b/builder.go
@@ -429,6 +429,10 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 		}
 	}
 	if !attrExists {
+		// Security check: one more attribute would make the document invalid
+		if len(attrNames) >= MaxAttributes {
+			return fmt.Errorf("%w: element has the maximum of %d attributes", ErrInvalidPath, MaxAttributes)
+		}
 		attrNames = append(attrNames, attrName)
 	}
 
-- 
2.43.0


From c3dfac2327edc45c0094c3245be78c8daa012424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:40 +0000
Subject: [PATCH 22/33] fix: refuse a Set whose result exceeds the document
 size limit

The call succeeded and returned a document that Valid and every later
call refuse.
---
 set.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set.go b/set.go
index f8d4c62..5517121 100644
--- a/set.go
+++ b/set.go
@@ -501,7 +501,13 @@ func SetBytesWithOptions(xml []byte, path string, value interface{}, opts *Optio
 		return xml, err
 	}
 
-	return []byte(builder.getResult()), nil
+	// Security check: the result must stay within the document size limit
+	result := builder.getResult()
+	if len(result) > MaxDocumentSize {
+		return xml, fmt.Errorf("%w: resulting document exceeds maximum size of %d bytes", ErrInvalidValue, MaxDocumentSize)
+	}
+
+	return []byte(result), nil
 }
 
 // DeleteBytesWithOptions is like DeleteBytes but accepts Options for behavioral control.
-- 
2.43.0


From 4ff18ce3be6825b0a5f9634bf26752edd1955f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:46 +0000
Subject: [PATCH 23/33] fix: accept well-formed raw XML in SetRaw and refuse
 too deep nesting

The balance check misread attribute values with '>', processing
instructions with '>', and tags with a tab or line break, so SetRaw refused
well-formed XML. It also accepted XML nested so deep that the resulting
document is not valid.
---
 set.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/set.go b/set.go
index 5517121..5446d89 100644
--- a/set.go
+++ b/set.go
@@ -104,7 +104,16 @@ func SetRaw(xml, path, rawxml string) (string, error) {
 	}
 
 	// Use Set with []byte to insert raw XML
-	return Set(xml, path, []byte(rawxml))
+	result, err := Set(xml, path, []byte(rawxml))
+	if err != nil {
+		return xml, err
+	}
+
+	// The raw XML may be nested deeper than the target allows
+	if !Valid(result) {
+		return xml, fmt.Errorf("%w: resulting document is not valid", ErrInvalidValue)
+	}
+	return result, nil
 }
 
 // validateRawXML performs basic validation on raw XML to prevent injection
@@ -126,7 +135,7 @@ func validateRawXML(rawxml string) error {
 				tagNameStart := i
 
 				// Extract tag name
-				for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' {
+				for i < len(rawxml) && rawxml[i] != '>' && !isWhitespace(rawxml[i]) {
 					i++
 				}
 				tagName := rawxml[tagNameStart:i]
@@ -185,8 +194,15 @@ func validateRawXML(rawxml string) error {
 				} else if hasPrefixFold(rawxml[i:], "<!ENTITY") {
 					// ENTITY declarations - REJECT for security
 					return fmt.Errorf("%w: ENTITY declarations not allowed in SetRaw", ErrInvalidValue)
+				} else if next == '?' {
+					// PI - skip to end
+					endPos := strings.Index(rawxml[i:], "?>")
+					if endPos == -1 {
+						return ErrInvalidValue
+					}
+					i += endPos + 2
 				} else {
-					// PI or other - skip to end
+					// Other - skip to end
 					endPos := strings.Index(rawxml[i:], ">")
 					if endPos == -1 {
 						return ErrInvalidValue
@@ -199,7 +215,7 @@ func validateRawXML(rawxml string) error {
 			// Opening tag - extract tag name
 			i++
 			tagNameStart := i
-			for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != ' ' && rawxml[i] != '/' {
+			for i < len(rawxml) && rawxml[i] != '>' && rawxml[i] != '/' && !isWhitespace(rawxml[i]) {
 				i++
 			}
 			tagName := rawxml[tagNameStart:i]
@@ -218,6 +234,13 @@ func validateRawXML(rawxml string) error {
 				} else if rawxml[i] == '>' {
 					i++
 					break
+				} else if rawxml[i] == '"' || rawxml[i] == '\'' {
+					// Attribute value - may contain '>' and "/>"
+					endPos := strings.IndexByte(rawxml[i+1:], rawxml[i])
+					if endPos == -1 {
+						return ErrInvalidValue
+					}
+					i += endPos + 1
 				}
 				i++
 			}
-- 
2.43.0


From 51b45410fe3894ab4ded8da438a885b8ccaa0ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:47 +0000
Subject: [PATCH 24/33] fix: extract fields after a wildcard when options are
 given

GetWithOptions returned nothing for **.item.#.name and a non-existing
result instead of an empty array for *.item.#.name, unlike Get.
---
 get.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/get.go b/get.go
index f51d35d..43091bf 100644
--- a/get.go
+++ b/get.go
@@ -1229,6 +1229,8 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 	}
 
 	var allResults []Result
+	hasFieldExtraction := false // Track if field extraction is in remaining path
+
 	for _, match := range matches {
 		nextSeg := segments[segIndex+1]
 
@@ -1271,6 +1273,10 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		contentParser := newXMLParser([]byte(match.content))
 		result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 		if result.Type != Null {
+			// If we got an empty Array back, that means field extraction occurred
+			if result.Type == Array && len(result.Results) == 0 {
+				hasFieldExtraction = true
+			}
 			if result.Type == Array {
 				allResults = append(allResults, result.Results...)
 			} else {
@@ -1279,7 +1285,14 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 		}
 	}
 
+	// If field extraction occurred (even with no results), return empty Array not Null
 	if len(allResults) == 0 {
+		if hasFieldExtraction {
+			return Result{
+				Type:    Array,
+				Results: []Result{},
+			}
+		}
 		return Result{Type: Null}
 	}
 
@@ -1401,6 +1414,16 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 						Str:  unescapeXML(textContent),
 						Raw:  content,
 					})
+				case SegmentFieldExtraction:
+					// Field extraction from current match
+					match := elementMatch{
+						name:          elemName,
+						attrs:         attrs,
+						content:       content,
+						isSelfClosing: isSelfClosing,
+					}
+					result := executeFieldExtractionWithOptions([]elementMatch{match}, nextSegment, opts)
+					*ctx.results = append(*ctx.results, result.Results...)
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
-- 
2.43.0


From 46e6b882ad25e2f444c4ce87dabcc23b2eb67a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:39 +0000
Subject: [PATCH 25/33] fix: limit the results of combined wildcards

Each wildcard or filter step was limited to MaxWildcardResults.
A path with two of them returned up to the square of the limit.
The combined results are now limited as well.
---
 get.go | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/get.go b/get.go
index 43091bf..b702609 100644
--- a/get.go
+++ b/get.go
@@ -617,9 +617,9 @@ func handleWildcardMatches(matches []elementMatch, segments []PathSegment, segIn
 			}
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendLimited(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendLimited(allResults, result)
 			}
 		}
 	}
@@ -768,16 +768,16 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 					result := executeFieldExtraction([]elementMatch{match}, nextSegment)
 					// Field extraction always returns Array (even if empty)
 					if result.Type == Array {
-						*ctx.results = append(*ctx.results, result.Results...)
+						*ctx.results = appendLimited(*ctx.results, result.Results...)
 					}
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQuery(contentParser, segments, segIndex+1)
 					if result.Type != Null {
 						if result.Type == Array {
-							*ctx.results = append(*ctx.results, result.Results...)
+							*ctx.results = appendLimited(*ctx.results, result.Results...)
 						} else {
-							*ctx.results = append(*ctx.results, result)
+							*ctx.results = appendLimited(*ctx.results, result)
 						}
 					}
 				}
@@ -786,6 +786,15 @@ func recursiveSearchWithContext(parser *xmlParser, targetSeg PathSegment, segmen
 	}
 }
 
+// appendLimited appends results up to the limit of MaxWildcardResults.
+// Results beyond the limit are silently dropped.
+func appendLimited(results []Result, more ...Result) []Result {
+	if free := MaxWildcardResults - len(results); len(more) > free {
+		more = more[:max(free, 0)]
+	}
+	return append(results, more...)
+}
+
 // GetMany searches xml for multiple paths in a single pass and returns
 // a slice of Results corresponding to each path. This is more efficient
 // than calling Get multiple times.
@@ -1278,9 +1287,9 @@ func handleWildcardMatchesWithOptions(matches []elementMatch, segments []PathSeg
 				hasFieldExtraction = true
 			}
 			if result.Type == Array {
-				allResults = append(allResults, result.Results...)
+				allResults = appendLimited(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendLimited(allResults, result)
 			}
 		}
 	}
@@ -1423,15 +1432,15 @@ func recursiveSearchWithContextAndOptions(parser *xmlParser, targetSeg PathSegme
 						isSelfClosing: isSelfClosing,
 					}
 					result := executeFieldExtractionWithOptions([]elementMatch{match}, nextSegment, opts)
-					*ctx.results = append(*ctx.results, result.Results...)
+					*ctx.results = appendLimited(*ctx.results, result.Results...)
 				default:
 					contentParser := newXMLParser([]byte(content))
 					result := executeQueryWithOptions(contentParser, segments, segIndex+1, opts)
 					if result.Type != Null {
 						if result.Type == Array {
-							*ctx.results = append(*ctx.results, result.Results...)
+							*ctx.results = appendLimited(*ctx.results, result.Results...)
 						} else {
-							*ctx.results = append(*ctx.results, result)
+							*ctx.results = appendLimited(*ctx.results, result)
 						}
 					}
 				}
@@ -1851,9 +1860,9 @@ func processAllMatches(matches []elementMatch, segments []PathSegment, segIndex
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendLimited(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendLimited(allResults, result)
 			}
 		}
 	}
@@ -2151,9 +2160,9 @@ func processAllMatchesWithOptions(matches []elementMatch, segments []PathSegment
 		if result.Type != Null {
 			if result.Type == Array {
 				// Flatten nested arrays
-				allResults = append(allResults, result.Results...)
+				allResults = appendLimited(allResults, result.Results...)
 			} else {
-				allResults = append(allResults, result)
+				allResults = appendLimited(allResults, result)
 			}
 		}
 	}
-- 
2.43.0


From 0903a8687de599f2f33c4a281a7d003d55e13f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:59:54 +0000
Subject: [PATCH 26/33] fix: refuse names and attribute values over the token
 size limit in writes

Set wrote element names, attribute names and attribute values longer than
MaxTokenSize. Valid refuses such a document, so the result of a successful
Set could not be read or written again.
---
 builder.go  | 4 ++++
 validate.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/builder.go b/builder.go
index 6a9ac76..6ce5452 100644
--- a/builder.go
+++ b/builder.go
@@ -392,6 +392,10 @@ func (b *xmlBuilder) replaceAttribute(location *elementLocation, attrName string
 	if err := validateName(attrName); err != nil {
 		return fmt.Errorf("%w: invalid attribute name", ErrInvalidPath)
 	}
+	// Security check: a longer value would make the document invalid
+	if len(attrValue) > MaxTokenSize {
+		return fmt.Errorf("%w: attribute value exceeds maximum size of %d bytes", ErrInvalidValue, MaxTokenSize)
+	}
 
 	// Build new opening tag with updated attribute
 	b.result.Reset()
diff --git a/validate.go b/validate.go
index 7e8932d..a8e97bd 100644
--- a/validate.go
+++ b/validate.go
@@ -577,6 +577,9 @@ func validateName(name string) error {
 	if len(name) == 0 {
 		return fmt.Errorf("empty name")
 	}
+	if len(name) > MaxTokenSize {
+		return fmt.Errorf("name exceeds maximum size of %d bytes", MaxTokenSize)
+	}
 
 	// First character must be a letter, underscore, or colon
 	first := name[0]
-- 
2.43.0


From d395c5509b85dbd96d8267b483c4192d23d3bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:59 +0000
Subject: [PATCH 27/33] fix: skip attributes over the limit when reading a tag

Reading stopped at the 100th attribute in the middle of the tag. The rest of
the tag was then taken for content, so attribute text was returned as data.
---
 parser.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/parser.go b/parser.go
index 21ffcb2..9419185 100644
--- a/parser.go
+++ b/parser.go
@@ -174,11 +174,6 @@ func (p *xmlParser) parseAttributes() map[string]string {
 	for {
 		p.skipWhitespace()
 
-		// Security check: enforce maximum attribute count to prevent DoS attacks
-		if attrCount >= MaxAttributes {
-			break
-		}
-
 		// Check if we've reached the end of the tag
 		if p.pos >= p.dataLen {
 			break
@@ -207,15 +202,19 @@ func (p *xmlParser) parseAttributes() map[string]string {
 		p.skipWhitespace()
 
 		// Read attribute value (can be quoted with " or ')
+		var value string
 		quote := p.peek()
 		if quote == '"' || quote == '\'' {
 			p.next() // skip opening quote
-			value := p.readUntil(quote)
+			value = p.readUntil(quote)
 			p.next() // skip closing quote
-			attrs[name] = unescapeXML(value)
 		} else {
 			// Unquoted attribute value (read until whitespace or >)
-			value := p.readUntilAny(" \t\n\r/>")
+			value = p.readUntilAny(" \t\n\r/>")
+		}
+
+		// Security check: ignore attributes beyond the maximum count to prevent DoS attacks
+		if attrCount <= MaxAttributes {
 			attrs[name] = unescapeXML(value)
 		}
 	}
-- 
2.43.0


From 06dd567a9ee3b9bb5efbdf32a78955971a0356e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:22:42 +0000
Subject: [PATCH 28/33] fix: recognise a DOCTYPE in any letter case when
 validating

Queries and writes skip a DOCTYPE whatever its letter case, but Valid only
knew the all upper and all lower case forms. A document with "<!DocType ["
was accepted although everything after it was skipped.
---
 validate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/validate.go b/validate.go
index a8e97bd..edf08e4 100644
--- a/validate.go
+++ b/validate.go
@@ -3,7 +3,10 @@
 
 package xmldot
 
-import "fmt"
+import (
+	"fmt"
+	"strings"
+)
 
 // ValidateError represents an XML validation error with location information
 type ValidateError struct {
@@ -187,8 +190,7 @@ func (p *validatingParser) parseTag() *ValidateError {
 
 		// Check for DOCTYPE (forbidden for security)
 		if p.pos+7 <= p.dataLen {
-			doctype := string(p.data[p.pos : p.pos+7])
-			if doctype == "DOCTYPE" || doctype == "doctype" {
+			if strings.EqualFold(string(p.data[p.pos:p.pos+7]), "DOCTYPE") {
 				// Skip DOCTYPE for security but don't treat as error
 				return p.skipDOCTYPE()
 			}
-- 
2.43.0


From 14298ccd378b0b60e470979f0525a507dd011d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:25:25 +0000
Subject: [PATCH 29/33] fix: accept raw comments whose text starts with >

SetRaw took the "-->" inside "<!-->" for a whole comment, so the tags in the
rest of the comment text were counted and a well-formed value was refused.
---
 set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/set.go b/set.go
index 5446d89..a1e5bb9 100644
--- a/set.go
+++ b/set.go
@@ -165,11 +165,11 @@ func validateRawXML(rawxml string) error {
 				// Comment, CDATA, or PI - skip
 				if strings.HasPrefix(rawxml[i:], "<!--") {
 					// Comment: <!--
-					endPos := strings.Index(rawxml[i:], "-->")
+					endPos := strings.Index(rawxml[i+4:], "-->")
 					if endPos == -1 {
 						return ErrInvalidValue
 					}
-					i += endPos + 3
+					i += 4 + endPos + 3
 				} else if strings.HasPrefix(rawxml[i:], "<![CDATA[") {
 					// CDATA - validate no nested CDATA or suspicious patterns
 					cdataStart := i + 9
-- 
2.43.0


From 8220f9a2712cb9d35d3dd0fd27b9284cfa6b207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:02 +0000
Subject: [PATCH 30/33] fix: keep attribute values and comments that contain >
 in @ugly

A > inside an attribute value or a comment was taken for the end of the
markup, and white space after it was removed. That changed attribute values
and could end a comment early.
---
 modifier.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/modifier.go b/modifier.go
index 18d1fdb..e98bfe1 100644
--- a/modifier.go
+++ b/modifier.go
@@ -500,6 +500,9 @@ func compactXML(xmlStr string) string {
 
 	inTag := false
 	inCDATA := false
+	quoted := false // tag whose attribute values may contain '>'
+	var quote byte  // quote that ends the current attribute value
+	lastComment := strings.LastIndex(xmlStr, "-->")
 
 	for i := 0; i < len(xmlStr); i++ {
 		// Check for CDATA start
@@ -510,6 +513,14 @@ func compactXML(xmlStr string) string {
 			continue
 		}
 
+		// Copy comments as they are
+		if !inTag && !inCDATA && i+4 <= lastComment && xmlStr[i:i+4] == "<!--" {
+			end := i + 4 + strings.Index(xmlStr[i+4:], "-->") + 3
+			buf.WriteString(xmlStr[i:end])
+			i = end - 1
+			continue
+		}
+
 		// Check for CDATA end
 		if inCDATA && i+3 <= len(xmlStr) && xmlStr[i:i+3] == "]]>" {
 			inCDATA = false
@@ -527,7 +538,16 @@ func compactXML(xmlStr string) string {
 		}
 
 		// Rest of existing logic for non-CDATA content
-		if c == '<' {
+		if quote != 0 {
+			// Keep attribute values as they are
+			if c == quote {
+				quote = 0
+			}
+			buf.WriteByte(c)
+		} else if c == '<' {
+			if !inTag {
+				quoted = i+1 < len(xmlStr) && xmlStr[i+1] != '!' && xmlStr[i+1] != '?'
+			}
 			inTag = true
 			buf.WriteByte(c)
 		} else if c == '>' {
@@ -535,6 +555,9 @@ func compactXML(xmlStr string) string {
 			inTag = false
 		} else if inTag {
 			// Keep all whitespace inside tags (attributes)
+			if quoted && (c == '"' || c == '\'') {
+				quote = c
+			}
 			buf.WriteByte(c)
 		} else if !isWhitespace(c) {
 			// Outside tags and not whitespace: keep the character
-- 
2.43.0


From 3b2b83f133da7b6b321f57101a3df5c1ec26f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:03 +0000
Subject: [PATCH 31/33] fix: keep name prefixes and namespace declarations in
 @pretty

Prefixed elements lost their prefix, and prefixed attributes and namespace
declarations came back under invented names.
---
 modifier.go | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/modifier.go b/modifier.go
index e98bfe1..1c2a676 100644
--- a/modifier.go
+++ b/modifier.go
@@ -374,7 +374,8 @@ func (m *prettyModifier) Apply(r Result) Result {
 
 	// Copy tokens from decoder to encoder
 	for {
-		token, err := decoder.Token()
+		// RawToken keeps prefixes and namespace declarations as written
+		token, err := decoder.RawToken()
 		if err != nil {
 			// End of document or parse error
 			if err.Error() == "EOF" {
@@ -384,32 +385,25 @@ func (m *prettyModifier) Apply(r Result) Result {
 			return r
 		}
 
-		// Fix duplicate xmlns by clearing Name.Space on StartElement and EndElement tokens
-		// xml.Decoder sets both Name.Space (to the namespace URI) and adds xmlns attributes
-		// xml.Encoder sees Name.Space is set and adds xmlns again, causing duplicates
-		// Solution: Clear namespace from both start and end elements since xmlns attrs preserve it
+		// xml.Encoder adds xmlns attributes for names with Name.Space set
+		// Solution: Write prefixes as part of the local name
 		if startElem, ok := token.(xml.StartElement); ok {
 			// Deduplicate xmlns attributes first
 			dedupedAttrs := deduplicateXmlnsAttrs(startElem.Attr)
 
-			// Create a completely new StartElement with cleared namespace
+			// Create a completely new StartElement with prefixed local names
 			newStartElem := xml.StartElement{
-				Name: xml.Name{
-					Space: "", // Clear namespace to prevent encoder from adding xmlns
-					Local: startElem.Name.Local,
-				},
-				Attr: dedupedAttrs,
+				Name: prefixedName(startElem.Name),
+				Attr: make([]xml.Attr, len(dedupedAttrs)),
+			}
+			for i, attr := range dedupedAttrs {
+				newStartElem.Attr[i] = xml.Attr{Name: prefixedName(attr.Name), Value: attr.Value}
 			}
 
 			token = newStartElem
 		} else if endElem, ok := token.(xml.EndElement); ok {
-			// Also clear namespace from end elements to match the cleared start elements
-			token = xml.EndElement{
-				Name: xml.Name{
-					Space: "",
-					Local: endElem.Name.Local,
-				},
-			}
+			// Also write end elements like the start elements they match
+			token = xml.EndElement{Name: prefixedName(endElem.Name)}
 		}
 
 		if err := encoder.EncodeToken(token); err != nil {
@@ -417,8 +411,8 @@ func (m *prettyModifier) Apply(r Result) Result {
 		}
 	}
 
-	// Flush the encoder
-	if err := encoder.Flush(); err != nil {
+	// Flush the encoder, which fails if an element was not closed
+	if err := encoder.Close(); err != nil {
 		return r
 	}
 
@@ -430,6 +424,14 @@ func (m *prettyModifier) Apply(r Result) Result {
 	}
 }
 
+// prefixedName returns the name with its prefix, if any, in the local part.
+func prefixedName(name xml.Name) xml.Name {
+	if name.Space == "" {
+		return name
+	}
+	return xml.Name{Local: name.Space + ":" + name.Local}
+}
+
 // deduplicateXmlnsAttrs removes duplicate xmlns namespace declarations from attributes.
 // Keeps the first occurrence of each unique xmlns declaration.
 func deduplicateXmlnsAttrs(attrs []xml.Attr) []xml.Attr {
-- 
2.43.0


From ef2d9fe91084f4156e67f2ae9214f14b2f0bb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:18:59 +0000
Subject: [PATCH 32/33] fix: replace the existing layout in @pretty

The white space between elements was kept next to the new indentation, and
tabs came back as &#x9; character references that are read as text.
---
 modifier.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modifier.go b/modifier.go
index 1c2a676..062c926 100644
--- a/modifier.go
+++ b/modifier.go
@@ -385,6 +385,11 @@ func (m *prettyModifier) Apply(r Result) Result {
 			return r
 		}
 
+		// The encoder writes its own layout between elements
+		if text, ok := token.(xml.CharData); ok && len(bytes.Trim(text, " \t\r\n")) == 0 {
+			continue
+		}
+
 		// xml.Encoder adds xmlns attributes for names with Name.Space set
 		// Solution: Write prefixes as part of the local name
 		if startElem, ok := token.(xml.StartElement); ok {
-- 
2.43.0


From b20fd2dc6b82e416eb6fbc171c190f5debafe202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:27 +0000
Subject: [PATCH 33/33] fix: write quotes and tabs in @pretty so that they can
 be read back

Quotes and tabs in texts and attribute values came back as the character
references &#34;, &#39; and &#x9;, which this package does not decode.
---
 modifier.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modifier.go b/modifier.go
index 062c926..e405ffd 100644
--- a/modifier.go
+++ b/modifier.go
@@ -424,11 +424,15 @@ func (m *prettyModifier) Apply(r Result) Result {
 	return Result{
 		Type: r.Type,
 		Str:  r.Str,
-		Raw:  buf.String(),
+		Raw:  readable.Replace(buf.String()),
 		Num:  r.Num,
 	}
 }
 
+// readable replaces the character references of xml.Encoder that this package
+// does not decode.
+var readable = strings.NewReplacer("&#34;", "&quot;", "&#39;", "&apos;", "&#x9;", "\t")
+
 // prefixedName returns the name with its prefix, if any, in the local part.
 func prefixedName(name xml.Name) xml.Name {
 	if name.Space == "" {
-- 
2.43.0

