#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "Queries are total: no input makes a read panic or hang",
  "For every byte string given as document and every byte string given as path, Get, GetString, GetBytes, GetMany and their WithOptions forms, Valid/ValidateWithError, and every method on the returned Result return normally. A document or path that cannot be interpreted yields a non-existing result, never a panic, an out-of-range access or an endless loop.",
  ["inputs"], "all documents (any bytes, well formed or not) and all paths (any bytes)",
  "Tests and fuzz seeds run a fixed list of documents and paths; crashes need a specific truncated tag, lone quote or odd operator at a specific place.",
  ["parser.go", "get.go", "path.go", "filter.go", "validate.go", "result.go", "modifier.go", "internal/pattern/match.go"],
  [("cached length bounds checks", "parser.go:peek/next/readUntil*/skipToNextElement"), ("loop progress", "parser.go:parseAttributes/parseElementContent"), ("filter parser slicing", "filter.go:parseFilterCondition"), ("index bound checks", "get.go:executeQuery")],
  observe=["return values of the public read API"])
p("C02", "Writes are total and fail atomically with a sentinel error",
  "For every document, path and value, Set, SetRaw, SetMany, Delete, DeleteMany and their Bytes/WithOptions forms return normally; when they return an error it wraps exactly one of ErrMalformedXML, ErrInvalidPath or ErrInvalidValue and the returned document is the input, byte for byte. A document that Valid rejects is always refused with ErrMalformedXML (the empty document is accepted by Set only), and a path without segments with ErrInvalidPath.",
  ["inputs"], "all documents, all paths, all value types",
  "The error tests cover about a dozen malformed documents; whether the input comes back unchanged and whether every rejected document is refused depends on the whole input space.",
  ["set.go", "builder.go", "validate.go", "errors.go"],
  [("validate before modify", "set.go:SetBytesWithOptions/DeleteBytesWithOptions"), ("return input on error", "set.go:Set/Delete/SetMany/DeleteMany"), ("offset arithmetic", "builder.go:findElementLocation")],
  observe=["returned document", "errors.Is on the returned error"])
p("C03", "Valid accepts exactly the documented well-formedness grammar",
  "Valid returns true exactly for documents made of one or more properly nested elements (names of letters, digits and . - _ : starting with a letter, _ or :, quoted attribute values, matching close tags, '/>' empty elements), with comments free of '--', CDATA, processing instructions and DOCTYPE skipped, and no text outside the roots. Valid, ValidBytes, ValidateWithError and ValidateBytesWithError always agree, and a reported error position lies inside the document.",
  ["inputs"], "all byte strings",
  "Tests list accepted and rejected examples; an accept/reject decision that is wrong for one byte at one position is invisible to them, and Set/Delete rely on this gate.",
  ["validate.go", "parser.go"],
  [("tag stack", "validate.go:parseOpeningTag/parseClosingTag"), ("name character classes", "validate.go:readNameTracked/validateName"), ("comment/CDATA/PI/DOCTYPE skipping", "validate.go:skipComment/skipCDATA/skipDOCTYPE/skipUntilTracked"), ("line/column tracking", "validate.go:advance")],
  observe=["bool / *ValidateError results"])
p("C04", "Set then Get returns the written text, for every text",
  "After a successful Set of a string on an element path (existing, self-closing, indexed or newly created, including missing ancestors), Get of the same path yields that string with surrounding white space trimmed, whatever characters it contains. Integers and booleans read back as the same number or boolean, and no value can introduce elements, attributes or entities of its own.",
  ["inputs"], "all documents accepted by Valid, all plain element paths, all strings / ints / bools",
  "Tests write a few literals; escaping must be exact for every byte sequence, including ones that look like entities or markup, at every kind of target.",
  ["builder.go", "set.go", "parser.go", "get.go"],
  [("escape on write, unescape on read", "parser.go:escapeXML/unescapeXML"), ("content range of the target", "builder.go:findElementLocation/replaceElement"), ("creation of missing elements", "builder.go:createElement/createInParent/createInRoot/createSiblingRoot")],
  observe=["Get after Set"])
p("C05", "Setting an attribute sets exactly that attribute, for every value",
  "After a successful Set on an attribute path, Get of that path returns the written string exactly, every other attribute of that element and every element text reads the same as before, and deleting an attribute makes it (and only it) not exist. This holds for quoted-by-either-quote, escaped, self-closing and not yet existing elements.",
  ["inputs"], "all valid documents, attribute names and values",
  "The tag is rebuilt from a map on each write; a wrong escape or lost attribute shows only for particular values, quote styles or attribute counts.",
  ["builder.go", "parser.go", "set.go"],
  [("rebuild of the opening tag", "builder.go:replaceAttribute/deleteAttribute"), ("creation of the owner element", "builder.go:createElementForAttribute"), ("attribute parsing", "parser.go:parseAttributes")],
  observe=["Get/Delete on attribute paths after Set"])
p("C06", "A successful write turns a valid document into a valid document",
  "If the input document is valid (or empty, for Set) and Set or Delete succeeds, the returned document is again accepted by Valid (or, when the only root was deleted, has no element left), whatever the path text and the string, number or boolean value. A path that would need an element or attribute name XML does not allow is refused with ErrInvalidPath instead of being written.",
  ["inputs"], "all valid documents, all path strings, all scalar values",
  "Tests check Valid on a handful of outputs; the path text is spliced into the document, so the claim is about every path string and every layout of the document.",
  ["builder.go", "set.go", "path.go", "validate.go"],
  [("name validation when creating", "builder.go:buildElementPath*/createElementForAttribute"), ("splice offsets", "builder.go:findElementLocation"), ("escaping", "parser.go:escapeXML")],
  observe=["Valid on the returned document"])
p("C07", "Set changes nothing but its target",
  "Replacing the text of an existing element leaves every byte outside that element's content unchanged, and creating an element only inserts bytes at the end of its deepest existing ancestor. Comments, CDATA, processing instructions, white space inside tags, quote style and attribute order of everything else are preserved.",
  ["inputs"], "all valid documents (any formatting), all element paths",
  "Corruption appears only when the formatting of some earlier part of the document is unusual; tests use tidy documents and mostly read back only the target.",
  ["builder.go", "parser.go"],
  [("target location in original offsets", "builder.go:findElementLocation"), ("byte splice", "builder.go:replaceElement/createInParent/createInRoot")],
  observe=["bytes of the returned document against the input"])
p("C08", "Delete removes exactly the addressed node",
  "Deleting an existing element or attribute removes exactly that node (for an element: its tags and everything between), leaving all other bytes of the document as they were; sibling counts drop by one and later siblings shift down. Deleting a path that does not exist returns the document unchanged without error.",
  ["inputs"], "all valid documents, element / index / attribute paths",
  "Which bytes disappear depends on closing-tag white space, nesting of same-named elements and preceding formatting, none of which tests vary systematically.",
  ["builder.go", "set.go"],
  [("extent of the element", "builder.go:deleteElement/findElementLocation"), ("attribute removal", "builder.go:deleteAttribute")],
  observe=["returned bytes", "counts through Get"])
p("C09", "Index -1 appends exactly one element after its like-named siblings",
  "A successful Set or SetRaw on 'path.name.-1' adds exactly one element: the count of name under that parent grows by one, the last one reads back as the value, earlier ones and all other bytes are unchanged, also for self-closing parents, missing parents, root-level fragments and the empty document. -1 before further segments, and any other negative index, is refused with ErrInvalidPath.",
  ["inputs"], "all valid documents, parents, sibling counts and values",
  "Tests append to a few fixed lists; position and count depend on the arrangement of siblings, comments and nested like-named elements.",
  ["builder.go", "path.go"],
  [("append intent", "path.go:resolveIndexIntent"), ("insertion point", "builder.go:findLastMatchPosition/appendElement/appendRootElement")],
  observe=["counts and values through Get", "returned bytes"])
p("C10", "Get resolves element, attribute and text paths like the document tree",
  "For every valid document, an element path returns the text of the first matching element in document order (entities decoded, surrounding space trimmed), '@name' its attribute value, '%' its direct text only, and a path that names nothing yields a non-existing result. An unprefixed path name matches any prefix, a prefixed one only that prefix.",
  ["inputs"], "all valid documents (layout, nesting, same-named nesting, self-closing, namespaces) and plain paths",
  "Tests pick example trees; resolution depends on every combination of nesting, duplicate names and formatting before the target.",
  ["get.go", "parser.go", "path.go"],
  [("element matching loop", "get.go:executeQuery"), ("content extraction", "parser.go:parseElementContent"), ("text extraction", "parser.go:extractTextContent/extractDirectTextOnly"), ("name matching", "path.go:matches/splitNamespace")],
  observe=["Result.Type/Str"])
p("C11", "Index, count and field extraction agree with each other and the tree",
  "For every document, 'name.#' is the number of like-named siblings, 'name.i' is the i-th of them for 0 <= i < count and does not exist otherwise, and 'name.#.field' lists that field of each of them in order. The same holds for root-level fragments and for continuations after an index.",
  ["inputs"], "all documents, sibling counts, indices and fields",
  "Count, index and extraction are three separate code paths (plus a fragment fast path); only a quantified comparison shows they never diverge.",
  ["get.go", "path.go"],
  [("array collection", "get.go:executeQuery/collectFragmentRoots"), ("field extraction", "get.go:executeFieldExtraction"), ("# post-processing", "path.go:parsePathInternal")],
  observe=["Result values for related paths"])
p("C12", "Filters select exactly the elements that satisfy the condition",
  "'#(cond)' returns the first and '#(cond)#' all elements, in document order, for which the condition is true: ==, != compare text, <, <=, >, >= compare numbers and are false when either side is not a number, a bare path tests existence, and a missing operand never matches. Selection is the same for child, attribute and nested operand paths and continues correctly with further segments; filter values that themselves contain operator characters or parentheses are not covered.",
  ["inputs"], "all element lists, operand values and filter values for every operator",
  "Each operator is tested with one or two values; boundary and non-numeric operands, and their combination with order and continuation, are an input space.",
  ["filter.go", "get.go"],
  [("operator parsing", "filter.go:parseFilterCondition"), ("evaluation", "filter.go:evaluateFilterWithDepth/isNumericValue"), ("selection", "get.go:handleFilterQuery*/processFirstMatch/processAllMatches")],
  observe=["Result of filter paths"])
p("C13", "Pattern filters implement wildcard matching exactly",
  "With % a filter matches iff the whole text matches the pattern, where * is any sequence, ? any one character and \\ makes the next character literal; !% is its negation. A comparison that exceeds the complexity limit selects nothing.",
  ["inputs"], "all texts and all patterns",
  "A table of examples cannot settle a matcher; mistakes need a particular alignment of stars, question marks, escapes and text.",
  ["internal/pattern/match.go", "filter.go"],
  [("dynamic-programming matcher", "internal/pattern/match.go:Match"), ("literal fast path", "filter.go:evaluateFilterWithDepth")],
  observe=["which elements a pattern filter selects"])
p("C14", "Wildcards return every match in order and nothing else",
  "'*' stands for every child element at that level and '**' for every descendant, results come in the documented order (document order for *, children before their parent for **), one match is returned as itself, several as an array, none as non-existing, and continuations apply to each match. No match is lost or duplicated.",
  ["inputs"], "all trees within limits and all wildcard positions",
  "Loss or duplication depends on tree shape and on what follows the wildcard; tests use a few shapes.",
  ["get.go"],
  [("single level", "get.go:executeQuery/handleWildcardMatches"), ("recursive", "get.go:handleRecursiveWildcard/recursiveSearchWithContext")],
  observe=["Result.Type and Results"])
p("C15", "Modifiers transform results as documented and chain left to right",
  "@reverse, @sort, @first, @last and @flatten return the reversed, sorted (numeric when all are numbers, else by text), first, last and one-level-flattened values of the un-modified result and leave the source result untouched; on single values they return the value. Unknown modifiers and chains longer than the limit give a non-existing result, and a custom modifier is applied exactly once in its place in the chain.",
  ["inputs", "histories"], "all result arrays, all chains of modifiers, register/unregister histories",
  "Sorting and chaining laws quantify over contents and sequences; tests fix both.",
  ["modifier.go", "get.go"],
  [("chain application", "modifier.go:applyModifiers"), ("built-ins", "modifier.go:*.Apply"), ("registry", "modifier.go:RegisterModifier/UnregisterModifier")],
  observe=["Results with and without modifiers"])
p("C16", "Options: defaults change nothing, case-insensitive matching is exact",
  "With nil or default options every WithOptions function equals its plain form. With CaseSensitive=false a query or write behaves as the case-sensitive one does when ASCII letters of all element and attribute names in document and path are lower-cased, and touches nothing else. PreserveWhitespace and Namespaces have no effect, and Indent only adds white space around elements a write creates.",
  ["inputs", "configurations"], "all documents, paths and option values",
  "The options code is a duplicated copy of the query engine; agreement for every input is exactly what example tests do not establish.",
  ["get.go", "options.go", "path.go", "builder.go", "set.go", "result.go"],
  [("duplicate engine", "get.go:executeQueryWithOptions"), ("name folding", "path.go:matchesWithOptions/toLowerASCII"), ("default detection", "options.go:isDefaultOptions")],
  observe=["results of plain and WithOptions calls"])
p("C17", "Path meaning depends only on the path text, with escapes honoured",
  "A path means the same on every call whatever paths, options, writes or failures came before it (including after the path cache is full), and a backslash makes the next character part of the name, so any element name can be addressed. Empty segments, and filter segments without condition or closing marker, are ignored; more segments than the limit, or an invalid condition, make the path match nothing.",
  ["inputs", "histories"], "all path strings and all histories of earlier calls",
  "A shared cache makes the result history dependent if any caller mutates a cached entry; tests rarely call twice in a different mode.",
  ["path.go", "get.go", "builder.go"],
  [("cache with copies", "path.go:parsePath"), ("option-specific lower-casing on a copy", "get.go:parsePathWithOptions"), ("copy before resolving indices", "builder.go:setElement"), ("escape splitting", "path.go:splitPath")],
  state=[("pathCache", "parsed segments by path text", "path.go")],
  observe=["results of repeated calls"])
p("C18", "The same call always returns the same bytes",
  "Every function is deterministic: calling it twice with the same arguments yields identical results, including Raw, attribute order in written documents, and which of several case-insensitively equal attributes is used. No result depends on map iteration order.",
  ["inputs", "schedules"], "all inputs, all map iteration orders",
  "Go randomises map iteration; a test passes or fails by luck and tests with one attribute never show it.",
  ["parser.go", "builder.go", "get.go"],
  [("sorted or source order of attributes", "builder.go:replaceAttribute/createIn*, parser.go:parseElementContent"), ("attribute choice", "get.go: case-insensitive attribute lookups")],
  observe=["full Result and returned documents"])
p("C19", "Resource limits are enforced exactly at their documented bounds",
  "Documents over 10MB (read, written or resulting from a write), nesting deeper than 100, more than 100 attributes, names and attribute values over 1MB, more than 100 path segments, filter conditions over 256 bytes, values over 5MB after escaping and modifier chains over 20 are refused, and inputs exactly at the bound are accepted. No query returns or counts more than 1000 results, the first 1000 in order being kept, and attributes after the 100th are ignored by queries.",
  ["inputs"], "all sizes around each bound",
  "Tests probe one size above each limit; off-by-one, missing checks on one of the many entry points, and result caps after flattening need the whole range.",
  ["parser.go", "validate.go", "get.go", "path.go", "filter.go", "builder.go", "set.go", "modifier.go"],
  [("size checks", "get.go:GetBytes*, set.go, validate.go:validate"), ("depth and attribute checks", "validate.go:parseOpeningTag/parseAttributesValidating"), ("result caps", "get.go: MaxWildcardResults checks")],
  observe=["results and errors as a function of size"])
p("C20", "DOCTYPE, comments, CDATA, PIs and entities never become data",
  "Text inside a DOCTYPE (any letter case, internal subset included), comment, CDATA section or processing instruction is never found as an element or attribute by a query and never changes which element a path finds or a write modifies. Only the five predefined entities are decoded, once; every other entity reference is returned literally.",
  ["inputs"], "all documents with such constructs anywhere, holding any text",
  "Tests put harmless text in these constructs; the danger is text that looks like tags, at each possible position.",
  ["parser.go", "builder.go", "validate.go"],
  [("skipping of non-elements", "parser.go:skipToNextElement/parseElementContent"), ("single-pass unescape", "parser.go:unescapeXML")],
  observe=["Get and Set results with the construct present and removed"])
p("C21", "SetRaw only inserts well-formed, declaration-free XML",
  "SetRaw succeeds exactly if the raw text is a sequence of balanced, well-formed content without DOCTYPE or ENTITY declarations or nested CDATA openings (and, on an attribute path, without '\"' and '<'), and then the whole result is valid and contains the raw text verbatim at the target. Anything else is refused with ErrInvalidValue and the document is returned unchanged.",
  ["inputs"], "all raw strings and all targets",
  "The injection check is a hand-written scanner; tests try known bad strings, the property is about all strings.",
  ["set.go", "builder.go", "validate.go"],
  [("raw validation", "set.go:validateRawXML"), ("raw splice", "builder.go:valueToXML/setElement")],
  observe=["Valid on results", "returned errors"])
p("C22", "Fluent chaining evaluates the path within the element found",
  "For every element path p and continuation q that starts with an element name, Get(p).Get(q) evaluates q within exactly the element p found, array operations and wildcards included; where p matches one element, or q is found in the first, it equals Get(p.q). On an array it is the first element's Get, on nothing and on attribute or text results it finds nothing, and GetMany / GetWithOptions agree with Get call by call.",
  ["inputs"], "all documents, splits of a path, and result types",
  "Chaining re-parses extracted content (sometimes wrapped in an artificial root); tests compare it on a few documents.",
  ["result.go", "get.go"],
  [("re-parse of Raw", "result.go:Get/GetWithOptions"), ("fragment detection", "result.go:isMultiRootFragment")],
  observe=["both results"])
p("C23", "Map lists exactly the immediate children",
  "Map of an element has one key per distinct child name plus '%' for direct text when there is any; each value equals what Get returns for that child, several like-named children become an array in document order, and MapWithOptions with CaseSensitive=false groups by lower-cased name. Arrays delegate to their first element; other results give an empty map.",
  ["inputs"], "all elements within limits",
  "Merging of duplicates depends on the multiplicity and order of names; tests fix both.",
  ["result.go"],
  [("child scan", "result.go:parseMapChildren*"), ("duplicate merge", "result.go:addChildToMap")],
  observe=["map keys and values"])
p("C24", "Batch calls equal the sequence of single calls, or change nothing",
  "SetMany, DeleteMany and GetMany give exactly what applying the single operations one after another gives (repeated DeleteMany paths count once), and if any step fails the whole call fails with that step's error and returns the original document.",
  ["inputs", "histories"], "all sequences of operations, overlapping paths and failing positions",
  "The interaction of overlapping or repeated paths and the failing position is a sequence space.",
  ["set.go", "get.go"],
  [("sequential application", "set.go:SetManyBytes/DeleteManyBytes"), ("deduplication", "set.go:DeleteManyBytes")],
  observe=["final document and error"])
p("C25", "Concurrent use is free of data races and behaves as if sequential",
  "Any number of goroutines may call any public function on shared inputs at the same time: no access to shared package state is unsynchronised, and each call returns what it would have returned alone.",
  ["schedules"], "all interleavings of two calls drawn from reads, writes and modifier registration, for every cache state",
  "The race detector only sees the schedules a test happens to produce.",
  ["path.go", "modifier.go"],
  [("path cache lock", "path.go:parsePath"), ("registry lock", "modifier.go:RegisterModifier/GetModifier/UnregisterModifier")],
  state=[("pathCache", "shared map", "path.go"), ("modifierRegistry", "shared map", "modifier.go")],
  observe=["ordering constraints between conflicting accesses"])
p("C26", "Inputs are never modified and all call variants agree",
  "No function writes to the document bytes, path, path list, value or options it is given, results do not alias memory later calls write, and the string, []byte, GetString, single and Many variants of an operation return the same outcome for the same content.",
  ["inputs"], "all documents, paths and values",
  "Aliasing shows only when a later call or the caller reuses the memory; tests do not look at the input after the call.",
  ["get.go", "set.go", "builder.go"],
  [("zero-copy conversion is read only", "get.go:stringToBytes"), ("copying builder", "builder.go:getResult")],
  observe=["input bytes after the call", "results of variants"])
p("C27", "Result conversions are faithful to the text",
  "For every result, Int and Float equal the decimal value of its text or 0, Bool is true exactly for the listed truthy texts, Exists/IsArray/Array/ForEach/Value are consistent with Type, and String of an array quotes each element with quotes and backslashes escaped so that elements can be recovered.",
  ["inputs"], "all texts and result types",
  "Conversion edge cases (signs, overflow, embedded quotes, early stop) are inputs, not examples.",
  ["result.go"],
  [("conversions", "result.go:Int/Float/Bool/String"), ("iteration", "result.go:ForEach/Array")],
  observe=["return values of Result methods"])
p("C28", "@ugly and @pretty change the layout only",
  "@ugly keeps every tag, attribute value, comment, CDATA section and non-blank text byte of the content and removes exactly the white space outside them. @pretty of well-formed content keeps its elements, names with prefixes, attributes and texts in order and indents nested elements two spaces per level; content that does not parse comes back unchanged. Neither changes the type or text of the result.",
  ["inputs"], "all contents: nested elements, quoted '>', comments, CDATA, quotes and tabs in texts",
  "Loss of content shows only for unusual content, such as '>' in attribute values, which examples of plain elements do not have.",
  ["modifier.go"],
  [("compacting", "modifier.go:@ugly"), ("re-encoding with indentation", "modifier.go:@pretty")],
  observe=["Raw, Str and Type of the result of a path ending in |@ugly or |@pretty"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
