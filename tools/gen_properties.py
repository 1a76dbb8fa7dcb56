#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Parsing terminates without a crash on every input",
  "For every byte string nested at most 10,000 levels deep, parsing it as one document, from any offset, as a stream of documents, or as a query string returns without panicking and yields either a document or an error, never both and never neither. "
  "The input bytes are not modified, and the reported end offset lies between the start offset and the end of the input. "
  "Every document so obtained can be printed, compared with itself, copied and converted without panicking, and parsing the same bytes again gives the same result.",
  ["inputs"], "all byte strings up to 10,000 nesting levels, all start offsets 0..len",
  "The tests parse about two dozen well-formed literals; hostile, truncated and binary inputs are not sampled at all, and the panics found here were all on inputs no test has.",
  ["jsonutils.go", "parse_session.go", "querystring.go", "stringsegment.go", "errors.go"],
  [("bounds checks before every index, errors for truncated input", "jsonutils.go parseDict/parseArray/parseQuoteString/parseJSONValue"), ("error excerpt clamped to the input", "errors.go NewJSONError")],
  ["Parse", "ParseString", "ParseStream", "ParseJsonStreams", "ParseQueryString"])

p("C02", "Standard JSON text is decoded to exactly the value it denotes",
  "Every RFC 8259 text whose numbers are in the double range and which does not use the reserved node-id member parses without error to the value it denotes: the same kinds, array order, member names and strings (every escape, surrogate pair and raw byte decoded), with the last of duplicate members. "
  "A number written as a plain integer in the 64-bit range is that integer exactly; any other number is the nearest double. "
  "Insignificant white space and the choice among equivalent escapes or number spellings do not change the result.",
  ["inputs"], "all standard JSON texts (UTF-8 or not inside strings), all layouts and spellings",
  "The tests check a few fixed texts; escapes, number boundaries, nesting, member counts and layouts form an infinite space in which a mistake shows for single values only.",
  ["jsonutils.go"],
  [("string unescaping", "jsonutils.go parseQuoteString"), ("token classification", "jsonutils.go parseJSONValue"), ("sorted insertion of members", "jsonutils.go parseDict")],
  ["Parse", "ParseString", "ParseStream"])

p("C03", "Truncated or structurally damaged documents are rejected",
  "No proper prefix of the text of an object, an array or a quoted string parses successfully. "
  "Neither does such a text after a comma or colon between members has been replaced by white space, or after a closing bracket has been replaced by the other kind or by a character that closes nothing, or after a digit of a \\u escape has been replaced by a character that is no hex digit. "
  "So a document cut off in transit is never mistaken for a complete one.",
  ["inputs", "crash_points"], "all documents with an object, array or string at the root, in any layout; all cut points; all separators and closing brackets",
  "No test feeds an incomplete document, and a single missing check at one parser state accepts just the cuts at that state.",
  ["jsonutils.go"],
  [("Truncated / Unexpected char errors at each parser state", "jsonutils.go parseDict/parseArray/parseQuoteString")],
  ["Parse", "ParseString", "ParseStream"])

p("C04", "Printed documents are valid JSON and denote the same content",
  "For every document whose numbers are finite and whose strings are UTF-8, both the compact and the pretty form are valid RFC 8259 texts without duplicate members. "
  "An independent decoder reads from both exactly the document's content: same kinds, member names, strings, array order and numeric values, whatever characters occur in names and values and however deep or large the document is.",
  ["inputs"], "all documents, however they were constructed, with finite numbers and UTF-8 strings and names",
  "The tests compare the output for a few documents and for three control characters; the guarantee is over all strings, names, numbers, sizes and nestings, for two separate printers.",
  ["jsonutils.go", "write.go", "string.go"],
  [("quoteString/escapeJsonChar", "jsonutils.go"), ("compact printer", "write.go buildString"), ("pretty printer", "jsonutils.go prettyString"), ("shortest float form", "string.go")],
  ["String", "PrettyString"])

p("C05", "Printing then parsing is lossless, and printing is canonical",
  "Parsing the compact or the pretty form of any document with finite numbers gives back the same content, byte for byte in strings and names (arbitrary bytes, not only UTF-8) and numerically equal in numbers (a negative zero reads as zero). "
  "Printing the parsed document again gives the identical compact text. "
  "Documents with the same content print identically however they were built and in whatever order their members were added, with the members in ascending byte order of their names. "
  "The compact form has no blanks outside texts; in the pretty form every element and member starts a line of its own, indented by two blanks per level of its container (a container that is the value of a member starts on the next line, one level deeper than the name), and the closing bracket stands under the opening one. "
  "Text with node ids and references to them is printed again with the same ids and references at the same places, in both forms, the id before the other members.",
  ["inputs", "histories"], "all documents with finite numbers, all construction histories",
  "The round trip tests use fixed literals; a loss shows up for particular bytes, particular numbers or particular insertion orders only.",
  ["jsonutils.go", "write.go", "string.go", "access.go"],
  [("escape and unescape are inverse", "jsonutils.go escapeJsonChar/parseQuoteString"), ("sorted member storage", "access.go Set"), ("shortest round-trip float form", "string.go")],
  ["String", "PrettyString", "Parse"])

p("C06", "Document streams yield every document once, in order, at exact offsets",
  "Parsing at an offset gives the same document as parsing it alone, whatever follows it, and reports as the end the position just after its last byte. "
  "Splitting a buffer into documents returns every object and array written in it exactly once and in order, whatever white space and whatever text free of opening brackets separates them. "
  "A malformed fragment between the documents does not hide or alter the documents around it, and an error is returned only when there is no well-formed document at all.",
  ["inputs"], "all sequences of documents, separators, start offsets and malformed fragments that cannot be read as the beginning of the following text",
  "One test parses one fixed stream; offsets, adjacency without separators and recovery after garbage are not tested.",
  ["jsonutils.go"],
  [("offset bookkeeping", "jsonutils.go ParseStream and the parse methods"), ("resynchronisation on the next opening bracket", "jsonutils.go ParseJsonStreams")],
  ["ParseStream", "ParseJsonStreams"])

p("C07", "Objects and arrays behave as sorted maps and lists over any edit history",
  "After any sequence of member sets, nested adds, removals (exact and case-insensitive), array appends and replacements, copies and merges, every object holds exactly the members last set and not removed since, listed once each in ascending byte order of the name, and every array exactly its elements in order. "
  "All ways of reading them (name list, lookup, containment, map and list export, sizes, iteration and printing) agree. "
  "An edit changes only the container it is applied to: other live containers, and maps and lists exported earlier, keep their content.",
  ["histories"], "all edit histories over a pool of live documents, with objects from empty to thousands of members",
  "The tests make a handful of edits on one small object; shifted, lost or leaked members depend on capacity, position and the interleaving of edits on several containers.",
  ["access.go", "dict.go", "clone.go", "size.go", "length.go", "iszero.go", "values.go"],
  [("binary search insertion and in-place deletion", "access.go Set/remove, sortedmap"), ("export allocates", "access.go GetMap/GetArray")],
  ["Set", "Add", "Remove", "RemoveIgnoreCase", "SetAt", "GetMap", "GetArray", "SortedKeys", "Size", "Length"],
  [("data", "sorted slice of members / slice of elements", "jsonutils.go JSONDict, JSONArray")])

p("C08", "Path lookup finds exactly what is there",
  "Looking up a path of names succeeds exactly when each name but the last leads to an object that has the next one, and then returns that member itself; containment agrees with lookup. "
  "Lookup ignoring case prefers an exact match at each level and otherwise takes the first member, in order of names, that matches under Unicode case folding. "
  "A missing member is reported as key-not-found, a path through a non-object as not-an-object, an element index (negative ones count from the end) outside the array as out of range, and no lookup panics or changes the document.",
  ["inputs"], "all documents, paths, indexes and spellings of names",
  "The tests look up a few present names; absent names, near misses, case variants, position in large objects and wrong kinds on the way are unbounded.",
  ["access.go"],
  [("_get", "access.go"), ("GetAt", "access.go"), ("find / findIgnoreCase", "sortedmap")],
  ["Get", "GetIgnoreCases", "Contains", "ContainsIgnoreCases", "GetAt"])

p("C09", "Typed accessors return the value denoted or an error, never an invented one",
  "Reading a member as integer, float, boolean, string, time, list or map returns the value when the member is of that kind or is a string that spells it (for a float also an integer; for a list a lone scalar as a one-element list; as a string every non-string is its printed text), and otherwise returns an error. "
  "The result is the same whether the member is read through a path or directly, and reading through a path that does not exist is an error; with an error no value is made up (the zero value, or the nearest number for one out of range). "
  "The native value, the length and the emptiness of a document agree with it. "
  "A time written by the library is read back as the same instant.",
  ["inputs"], "all values, all accessor and kind combinations, all strings that do and do not spell the kind",
  "The tests cover a few combinations; the accessor by kind matrix with boundary values is not covered.",
  ["access.go", "utils.go", "values.go"],
  [("per-kind overrides of the null value's defaults", "access.go")],
  ["Int", "Float", "Bool", "GetString", "GetTime", "GetArray", "GetMap", "Value"])

p("C10", "Copies are complete and isolated",
  "A deep copy has the same content as the original, null members included, and no later edit of any container of one is visible in the other. "
  "A shallow copy has exactly the members asked for (all, all but the excluded, or only the included names) and shares the member values, and setting or removing its own members or elements never changes the original or the reverse. "
  "Copying never changes the original, and a deep copy of a document with references prints and converts like the original.",
  ["inputs", "histories"], "all documents, all name lists, all later edits on either side",
  "The tests deep-copy a few small documents and make one edit; sharing at one level or one size shows only under an edit at that place.",
  ["clone.go"],
  [("DeepCopy recursion by kind", "clone.go"), ("Copy/CopyExcludes/CopyIncludes rebuild the member list", "clone.go")],
  ["DeepCopy", "Copy", "CopyExcludes", "CopyIncludes"])

p("C11", "Equality is exact structural equality",
  "Two documents free of not-a-number compare equal exactly when they have the same kinds, the same member names with equal values and equal elements in the same order; how they were built does not matter. "
  "Equality is reflexive (also for documents with references), symmetric and transitive, and one difference anywhere (a value, a kind, a name, its case, an extra or missing member or element, the order of elements) makes documents unequal. "
  "Comparing changes nothing.",
  ["inputs"], "all pairs of documents with finite numbers; integers and floats are different kinds; all positions of a single difference",
  "The tests compare a few pairs; missing one difference at one position or size is invisible to them.",
  ["equals.go", "jsonpointer.go"],
  [("Equals per kind", "equals.go"), ("Split of the member lists", "sortedmap")],
  ["Equals"])

p("C12", "Merging and diffing objects neither lose nor invent members",
  "Updating an object from another leaves it with the union of the members, the other's value winning for common names; updating with defaults likewise but the object's own value wins. "
  "A diff splits two objects into the members only in the first, those common but different (listed with both values), those common and equal, and those only in the second, each member in exactly one part, so that both inputs can be put together again from the parts. "
  "The inputs that are only read stay unchanged, later edits of the result's members do not show in the inputs or the reverse, and merging with a non-object changes nothing.",
  ["inputs", "histories"], "all pairs of objects (disjoint, nested, equal, empty, the same object twice), all later edits of the results",
  "Two tests use one pair each.",
  ["dict.go"],
  [("Merge and Split of sorted member lists", "dict.go, sortedmap")],
  ["Update", "UpdateDefault", "Diff"])

p("C13", "Go values survive marshalling and unmarshalling",
  "A Go value built from structs, embedded structs, pointers, slices, arrays, string-keyed maps, scalars of any named or plain type, times, tri-states, documents and types with their own JSON methods is restored by marshalling it and unmarshalling the result into a fresh value of the type, directly or through the compact or pretty text. "
  "Equality is exact for strings (any bytes), integers and floats, to the microsecond for times, and does not tell empty from absent. "
  "Marshalling and unmarshalling change neither the source value nor the document.",
  ["inputs", "programs"], "all struct types over those field kinds and tag options, and all values with finite floats and without nil elements inside lists and maps",
  "The tests round-trip a dozen fixed structs; every field kind, tag option, nesting and boundary value is a separate case.",
  ["marshal.go", "unmarshal.go", "std_json.go", "marshal_session.go", "unmarshal_session.go", "update.go"],
  [("kind dispatch", "marshal.go _marshalValue, unmarshal.go _unmarshalValue"), ("field name lookup", "unmarshal.go setStructFieldAt"), ("standard JSON methods", "std_json.go")],
  ["Marshal", "Unmarshal", "Update"])

p("C14", "Marshalled members follow the field options, deterministically",
  "Marshalling a struct gives one member per exported, not ignored field under its configured name, and nothing else; a field is left out exactly when its options say so for its value: nil, empty strings, empty lists, maps and structs unless empties are allowed, zero numbers and false only when configured. "
  "Numbers, booleans, lists, maps and structs with the string option become strings that hold their JSON text, and marshalling with nothing omitted writes every field, nil ones as null. "
  "String-keyed maps give one member per key, nil elements of lists and maps are left out unless nothing is omitted, and marshalling an unchanged value again gives the identical text.",
  ["inputs", "programs"], "all struct types over the field kinds and tag options, all values",
  "The tests check the options one at a time on fixed structs; the combinations of option, kind, nesting and emptiness are many.",
  ["marshal.go", "write.go"],
  [("omission rules per kind", "marshal.go marshalInt64 .. marshalTime, marshalSlice, marshalMap, marshalStruct"), ("sorted map keys", "marshal.go marshalMap")],
  ["Marshal", "MarshalAll"])

p("C15", "Cyclic object graphs marshal finitely and are rebuilt with their cycles",
  "Marshalling a finite graph of structs linked by pointers (also through pointers to pointers), in fields, embedded parts, lists or maps that the string option does not turn into text, with or without the empty fields, terminates even when it is cyclic, and the result can be printed, parsed, compared, copied, converted and marshalled again as a part of another value. "
  "Unmarshalling the result, or its compact or pretty text, into a fresh value rebuilds a finite graph in which every path leads to an object with the same content as in the original. "
  "A pointer that leads back to an enclosing object comes back as a pointer to that very object.",
  ["inputs"], "all finite pointer graphs over a family of node types, cyclic or shared",
  "The tests marshal two fixed loops; which references are written, and in which order they are met again, depends on the whole graph.",
  ["marshal_session.go", "jsonpointer.go", "json_pointer_trace.go", "parse_session.go", "unmarshal_session.go", "marshal.go", "unmarshal.go"],
  [("stack of pointers being marshalled", "json_pointer_trace.go"), ("node ids and references", "jsonpointer.go"), ("deferred resolution of references", "unmarshal_session.go")],
  ["Marshal", "Unmarshal", "String", "Parse", "Interface", "DeepCopy"])

p("C16", "Unmarshalling is total and changes nothing but its target",
  "Unmarshalling any document into any Go target of struct, map, list, pointer, interface or scalar type returns a result or an error and does not panic, whatever the mismatch between them. "
  "A member that does not fit its field is reported as an error and does not keep the other fields from being filled. "
  "The source document, other documents, shared constants such as true, false and null, and targets filled earlier are unchanged afterwards.",
  ["inputs", "programs", "histories"], "all documents and all (non-recursive list) target types built from those kinds, with fresh or previously filled targets",
  "The tests unmarshal matching documents; mismatching kinds and targets reused across documents are almost unsampled.",
  ["unmarshal.go", "std_json.go", "unmarshal_session.go", "values.go"],
  [("kind by kind dispatch with type mismatch errors", "unmarshal.go"), ("error aggregation per struct", "unmarshal.go unmarshalStruct")],
  ["Unmarshal", "Update"])

p("C17", "Query strings carry documents without loss",
  "An object whose names are non-empty and contain no dot, none inside another being the number 0 (which makes a list), and whose lists and nested objects are not empty, is restored by writing it as a query string and parsing that, every scalar as its text and null as the empty text. "
  "Lists come back in order whatever their length, and names and texts with any bytes are escaped so that they stay intact. "
  "The order in which the parameters are written does not matter, repeating a parameter gives a list of its values in order, and dotted and numbered names build nested objects and lists. A query string with a broken escape is reported as an error.",
  ["inputs"], "all such objects, all parameter orders, all bytes in names and values",
  "Fixed strings are parsed in the tests; ordering beyond nine elements, escaping and nesting combine without bound.",
  ["querystring.go", "stringsegment.go"],
  [("numeric-aware ordering of the segments", "stringsegment.go"), ("escaping", "querystring.go simpleQueryString")],
  ["QueryString", "ParseQueryString"])

p("C18", "YAML output reads back as the same document",
  "For every document with finite numbers and UTF-8 strings, the YAML form is not empty and parsing it as YAML gives the same content: same kinds, names, strings (including those that look like numbers, booleans, nulls, dates or YAML syntax, and those with control or special characters) and numeric values. "
  "Parsing a compact or indented JSON text without surrogate-pair escapes as YAML gives what parsing it as JSON gives. YAML written by hand, in block or flow style with plain, quoted or literal strings, comments, aliases and any indentation, gives the value it denotes.",
  ["inputs"], "all documents with finite numbers and UTF-8 strings",
  "One test prints one document; the ambiguous scalars and special characters of YAML are exactly what fixed samples miss.",
  ["yamlutils.go"],
  [("conversion through the JSON text", "yamlutils.go")],
  ["YAMLString", "ParseYAML"])

p("C19", "Concurrent readers never race and always see the sequential answer",
  "Any number of goroutines may print, look up, compare, copy, convert, export and unmarshal from one document, and parse, marshal and unmarshal separate values of shared types, at the same time. "
  "There is no data race among them, and every call returns what it returns when run alone.",
  ["schedules", "inputs"], "all interleavings of read-only operations on shared documents and values",
  "The tests are single-threaded and are not run under the race detector.",
  ["string.go", "write.go", "access.go", "equals.go", "clone.go", "marshal.go", "unmarshal.go", "reflect.go"],
  [("read-only operations write no shared state", "all accessors"), ("per-call sessions", "parse_session.go, marshal_session.go, unmarshal_session.go")],
  ["all read operations"])

p("C20", "Renamed fields stay in step, and post-unmarshal hooks run after filling",
  "A field declared as replaced by another is written with the value of the field at the end of the chain of replacements, exactly when that one is written, and is left out when the chain loops; marshalling terminates for every such declaration. "
  "A document that has just the old name fills the old field and every field of the chain up to the last. "
  "A hook that a target or an embedded part declares to run after unmarshalling does run, after all members have been stored, also for nested targets and when some member failed to fit.",
  ["inputs", "programs"], "all replacement declarations over the fields of a struct (chains, trees, loops, missing targets), all documents",
  "The tests use one chain; chains leading into loops and unions of chains are not tested.",
  ["marshal.go", "unmarshal.go", "consts.go"],
  [("chain resolution with loop detection", "marshal.go struct2JSONPairs"), ("propagation with a visited set", "unmarshal.go setStructFieldAt"), ("hook call", "unmarshal.go callStructAfterUnmarshal")],
  ["Marshal", "Unmarshal"])

p("C21", "Lenient conversions yield the value that was meant",
  "Unmarshalling a scalar into a Go scalar of another kind converts its value: integers and floats to each other (floats truncated), to strings that spell them, and to booleans as non-zero; booleans to 1 and 0 and to their names; strings that spell a number, also with thousands separators or leading zeros, to that decimal number of any integer or float type; the usual words in any case to booleans and tri-states, any other text to false and the undefined tri-state; null to the zero value. "
  "Targets of a scalar document type (value or pointer) take scalars of the other kinds likewise: strings numbers and booleans, integers floats and floats integers, booleans words. A lone string fills a list with that one element, objects and arrays fill a string with their text, and members find their field also under the field's own name or its snake-case form. "
  "A string that spells no number, or one beyond 64 bits, is an error for a number target and leaves the field as it was, except that the empty string leaves it without an error.",
  ["inputs"], "all scalar values in the range of the target, all target kinds, plain and named",
  "The tests convert a few values; the matrix of kinds with boundary values, separators and spellings is large.",
  ["unmarshal.go", "currency.go"],
  [("conversion per kind", "unmarshal.go"), ("currency normalisation", "currency.go")],
  ["Unmarshal"])

p("C22", "Helper queries agree with the document",
  "The first non-empty string among several names, the run of elements stored under numbered names, string lists taken from lists, single strings or numbered objects, and boolean options with defaults each return exactly what the document holds under those names, in order, and report or default exactly when it is not there. "
  "Checking required fields succeeds exactly when every listed name is present and not null, and otherwise names the first offending one and whether it is missing or null. "
  "Deserializing text by registered type gives the value the text denotes or an error, and none of these changes or panics on any document.",
  ["inputs"], "all documents, name lists and defaults",
  "Each helper has one small test at most.",
  ["utils.go", "querystring.go", "reflect.go"],
  [("helpers over the lookup interface", "utils.go"), ("QueryBoolean", "querystring.go"), ("JSONDeserialize", "reflect.go")],
  ["GetAnyString", "GetAnyString2", "GetArrayOfPrefix", "GetQueryStringArray", "GetStringArray", "CheckRequiredFields", "QueryBoolean", "JSONDeserialize"])

p("C23", "Conversion to plain Go values is faithful and detached",
  "Converting a document to plain Go values gives maps, lists, strings, 64-bit integers, floats, booleans and nil with exactly the document's content at every level, every list keeping its length and order and every object all of its members; in the document marshalled from linked Go objects, a reference back to an enclosing object becomes the very map of that object. "
  "A part that the document holds at several places gives a separate map or list at each. "
  "The result shares nothing with the document: changing the returned maps and lists, or the document afterwards, does not show in the other. "
  "Marshalling the plain values, with nothing omitted, gives an equal document.",
  ["inputs", "histories"], "all documents",
  "The tests convert scalars only.",
  ["interface.go", "marshal.go"],
  [("recursive conversion", "interface.go")],
  ["Interface", "MarshalAll"])

p("C24", "Updating a filled value touches exactly the named fields",
  "Unmarshalling a document into an already filled struct sets exactly the fields named in the document, null ones to their zero value, and leaves all other fields, also those of nested and embedded structs, as they were; unknown names are ignored. "
  "Lists are replaced as a whole and end with the document's length, while a list or document kept by the caller from before keeps its content; entries of maps and of objects held by value are added or replaced and the others kept. "
  "Updating one struct from another of the same type makes every field that the source writes equal to the source's and leaves the others.",
  ["inputs", "programs", "histories"], "all struct types over the field kinds, all previous contents, all documents and sequences of updates",
  "One test updates one struct once.",
  ["unmarshal.go", "update.go"],
  [("only members present are visited", "unmarshal.go unmarshalStruct/unmarshalMap"), ("list target resized", "unmarshal.go JSONArray._unmarshalValue")],
  ["Unmarshal", "Update"])

p("C25", "Memory and time grow in proportion to the size of the data",
  "For well-formed documents and Go values of any shape (long lists, wide objects, members in any order, long texts, names and numbers, escapes, blanks, repeated names, deep nesting, objects linked to each other), the memory that parsing, printing in every form, copying, comparing, merging, converting, marshalling and unmarshalling allocate grows no faster than input and output together, where the output of a query string includes the dotted names of all inner values. "
  "Texts that are cut off or hold one mistake are no exception, and the message of their error stays short. The same holds for the time of all this, apart from YAML and from setting thousands of members of one object one by one in another order than theirs. "
  "Reading or replacing one member or element costs no more on a large document than on a small one, up to a logarithm.",
  ["inputs"], "all well-formed documents and Go values, all sizes and shapes",
  "Tests use documents of a few members, where a quadratic cost cannot be told from a linear one.",
  ["jsonutils.go", "querystring.go", "marshal.go", "unmarshal.go", "access.go"],
  [("shared output buffer", "jsonutils.go buildString/buildPrettyString"), ("binary search in sorted members", "access.go JSONDict.Get and Set"), ("list growth", "access.go JSONArray.Add")],
  ["Parse", "ParseStream", "ParseJsonStreams", "String", "PrettyString", "QueryString", "DeepCopy", "Copy", "Equals", "Update", "Diff", "Marshal", "Unmarshal", "Interface", "Get", "Set", "GetAt", "SetAt"])

p("C26", "Results depend on the arguments alone",
  "The same call on equal arguments gives an equal result in every process and at every point of a program's history: whatever was parsed, printed, marshalled, unmarshalled, copied or compared before, in whatever order, whether those calls succeeded, failed or ended in a panic of a user's own method, and whichever types were seen first, also different types of the same name. "
  "A result that a call handed out does not change through later calls on other data, nor when the caller overwrites the byte buffers that it passed in; and changing a fresh result does not show in the results of later calls. "
  "(Errors are compared by their presence; documents that are themselves put into documents or Go values stay shared.)",
  ["histories", "inputs", "programs"], "all sequences of calls over all types and documents, in any number of processes",
  "Each test runs once, in one order, in one process, mostly on types of its own; state left behind by a failing call, a panicking hook or a cache of another type is never met.",
  ["jsonutils.go", "marshal.go", "unmarshal.go", "json_pointer_trace.go", "consts.go"],
  [("per-call sessions", "jsonutils.go sJsonParseSession, json_pointer_trace.go"), ("struct field information cached by type", "marshal.go/unmarshal.go via reflectutils"), ("shared constants", "consts.go")],
  ["Parse", "Marshal", "MarshalAll", "Unmarshal", "String", "PrettyString", "QueryString", "YAMLString", "Diff", "Update", "DeepCopy", "ParseQueryString", "ParseYAML", "JSONDeserialize"])

p("C27", "A type's own JSON methods are honoured: once per value, with the exact text",
  "A Go value whose type has its own MarshalJSON method is marshalled through it wherever the value stands (alone, in fields, embedded structs, lists, arrays, maps, behind pointers and interfaces): the method is called exactly once per value that the result contains, and the result holds exactly the document that it returned. "
  "Likewise a type with its own UnmarshalJSON method is filled through it, called exactly once for each value that the document gives for it, with JSON text that denotes exactly that part of the document. "
  "An error of such a method is reported (by Marshal, which returns none, with a panic), and so is a text from it that does not parse; neither an error nor a use of the package inside the method disturbs what the rest of the call does.",
  ["inputs", "programs"], "all Go types containing such types at any place, all values and documents",
  "The tests have one such type at one place, whose text never needs escaping.",
  ["marshal.go", "unmarshal.go"],
  [("json.Marshaler used for values", "marshal.go marshalValue/_marshalValue"), ("json.Unmarshaler used for targets", "unmarshal.go tryStdUnmarshal")],
  ["Marshal", "MarshalAll", "Unmarshal"])

p("C28", "The relaxed notation is read as meant",
  "Besides strict JSON the parser reads the relaxed notation: texts in single quotes, bare names and bare words of letters, digits and _ . / @ + -, the words null, none, true, yes, false and no in any mixture of cases, missing list elements and member values as null, a comma before the closing bracket, numbers with a plus sign, leading zeros, or without digits before or after the point, \\xHH and needless backslashes in quoted texts, and raw control characters in them. "
  "Every such text gives exactly the document that it denotes, wherever its parts stand, alone or in a stream, where its end is found exactly. "
  "Relaxed texts that are cut before their last bracket or quote closes, or closed with the wrong bracket, are errors.",
  ["inputs"], "all documents, all spellings in the relaxed notation",
  "The tests have a handful of relaxed texts, each with one relaxed spelling.",
  ["jsonutils.go"],
  [("words and numbers", "jsonutils.go parseJSONValue"), ("bare and quoted texts", "jsonutils.go parseString/parseQuoteString"), ("separators", "jsonutils.go parseDict/parseArray")],
  ["Parse", "ParseString", "ParseStream", "ParseJsonStreams"])

p("C29", "Errors say where and what is wrong",
  "When a text is not JSON, the reported error's cause is a *JSONError, and its position is the first character that cannot continue the text (the wrong separator or bracket, within the wrong escape, or the end of a text that is cut short), for texts of any length, depth and layout. "
  "Its message quotes the text around that position: up to ten bytes before it, the mark ^, and up to ten bytes from it on; building it never fails for any text and position, and it stays short however deep the mistake is nested. The error of a stream without any document names the place of every broken start in it. "
  "When a document does not fit a struct, the error names the members that do not fit, at every level, and in a struct of plain fields none of those that do; the members that fit are set all the same.",
  ["inputs"], "all texts damaged at any one place, all documents and struct types with any set of misfits",
  "The tests look at whether there is an error, never at what it says.",
  ["jsonutils.go", "errors.go", "unmarshal.go"],
  [("positions", "jsonutils.go NewJSONError call sites"), ("excerpt", "errors.go"), ("collected errors of members", "unmarshal.go")],
  ["Parse", "ParseString", "Unmarshal", "NewJSONError"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
