#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the list of properties lives here)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, technique=technique))


prop("P01", "Parsing any text ends without a panic and yields a usable document or an error",
     "Parse, ParseString, ParseStream, ParseJsonStreams, ParseQueryString and ParseYAML come to an end on every text without a panic, without changing it and without looking at bytes behind its end. They return either an error or a non-nil well-formed document on which every accessor, printer, DeepCopy and Equals works, and which is the same on every call and stays so when the caller later overwrites the text. ParseStream never returns an offset before its start or beyond the end of the text, and malformed or duplicate node ids are errors.",
     ["inputs"], "every byte sequence given to a parser, valid JSON or not",
     "the set of malformed inputs is unbounded; a crash hides in one rare combination of tokens and truncation",
     ["jsonutils.go", "parse_session.go", "querystring.go", "yamlutils.go"],
     [("value, string, dict and array parsers", "jsonutils.go parseJSONValue, parseQuoteString, parseString, parseDict, parseArray"), ("node ids and references", "parse_session.go saveNode, saveReferer"), ("stream entry points", "jsonutils.go ParseStream, ParseJsonStreams")],
     "fuzzing: generated token soup and mutated documents, crash and well-formedness oracle")
prop("P02", "Printing a document and parsing the text gives the same document back",
     "For every document d made of null, booleans, int64 numbers, finite floats, strings of any bytes, arrays and dicts, Parse(d.String()) equals d: same structure, keys, array order, exact integers and floats, and byte-identical strings (only a float with an integral value comes back as the integer of the same value). The text lists the keys of each dict in sorted order, does not depend on the order in which keys were set, and printing the parsed document gives the same text again.",
     ["inputs"], "every document, any depth, any strings and keys, any number",
     "escaping and number formatting have to be right for every character and number, alone and in combination",
     ["jsonutils.go", "write.go", "string.go"],
     [("printer", "write.go buildString, jsonutils.go quoteString, escapeJsonChar"), ("parser", "jsonutils.go parseJSONValue, parseQuoteString"), ("sorted dict storage", "access.go JSONDict.Set")],
     "property-based testing: round trip of generated documents")
prop("P03", "The printed text is valid RFC 8259 JSON with the same meaning for any reader",
     "For every document whose strings and keys are valid UTF-8, String() and PrettyString() are valid JSON by RFC 8259: encoding/json accepts them and decodes the same nulls, booleans, numbers, strings, arrays and dicts, with no duplicate keys.",
     ["inputs"], "every document with valid UTF-8 strings (documents without cyclic references)",
     "a writer and a parser can share a mistake; only an independent reader over all characters and numbers shows it",
     ["write.go", "jsonutils.go", "string.go"],
     [("escaping", "jsonutils.go escapeJsonChar, quoteString"), ("number formatting", "string.go JSONFloat.String, JSONInt.String")],
     "property-based testing: differential against encoding/json")
prop("P04", "Every RFC 8259 text is read with the meaning it has for a standard reader",
     "For every valid RFC 8259 text - any white space, any escapes including \\uXXXX surrogate pairs, any number notation with a finite value, any nesting - Parse succeeds and gives the document that encoding/json gives: integers that fit int64 are exact JSONInt, other numbers are JSONFloat of the nearest float64 (a float notation of an integral value may be either). Keys and strings are decoded identically.",
     ["inputs"], "every standard JSON text in every notation of the same document",
     "the notations of one document are unbounded (white space, escapes, exponents); tests sample a few",
     ["jsonutils.go"],
     [("escape decoding", "jsonutils.go parseQuoteString, hexstr2rune"), ("number recognition", "jsonutils.go parseJSONValue"), ("containers", "jsonutils.go parseDict, parseArray")],
     "property-based testing: differential against encoding/json on generated texts")
prop("P05", "Truncated and malformed documents are rejected, never read as something else",
     "A text that ends inside a string, an array or a dict is rejected with an error, at whatever byte it is cut; so is the empty text. A text is also rejected if the colon of an entry or the comma between two items is missing or is another character, if a bracket does not match its partner, or if a \\u or \\x escape lacks its hex digits; a rejected text never yields a partial document.",
     ["inputs"], "every proper prefix that ends inside a container or a string, and every such damage, of every document",
     "a cut may happen at every byte of every document",
     ["jsonutils.go"],
     [("end of input inside containers", "jsonutils.go parseDict, parseArray"), ("unterminated strings and bad escapes", "jsonutils.go parseQuoteString")],
     "property-based testing: metamorphic damage of generated documents, rejection oracle")
prop("P06", "Streams of JSON documents are split exactly, whatever surrounds them",
     "ParseStream reads exactly one document at the given offset and returns the offset behind it, so that calling it in a loop gives every document of a concatenation in order. ParseJsonStreams returns in order all dicts and arrays of a byte stream in which they are separated by white space or other text without brackets, and the documents equal those parsed one by one; input damaged or cut inside one document never changes the documents before it, and is an error if no document could be read.",
     ["inputs", "histories"], "every sequence of documents, every separator, every cut",
     "positions and separators combine freely; an off-by-one shows for special lengths and contents only",
     ["jsonutils.go"],
     [("offset handling", "jsonutils.go ParseStream"), ("document search", "jsonutils.go ParseJsonStreams")],
     "property-based testing: generated streams against the list of their documents")
prop("P07", "Pretty printing changes the layout only",
     "For every document d, Parse(d.PrettyString()) gives what Parse(d.String()) gives, and removing the white space outside strings from d.PrettyString() gives d.String(). Items of a non-empty container start lines of their own, indented two spaces deeper than its brackets; a container that is the value of a dict starts on the line below its key, four spaces deeper than the brackets of that dict. This includes escaped keys and strings, empty containers, scalars, and documents with node ids and references.",
     ["inputs"], "every document, any depth, with and without references",
     "depends on every combination of empty and nested containers and escaped characters",
     ["jsonutils.go"],
     [("pretty printers", "jsonutils.go jsonPrettyString, JSONDict.prettyString, JSONArray.prettyString")],
     "property-based testing: metamorphic relation of the two printers")
prop("P08", "YAML written by YAMLString reads back as the same document",
     "For every document d whose strings and keys are printable text, ParseYAML(d.YAMLString()) equals d up to the notation of numbers; strings that look like numbers, booleans, null or dates stay strings. ParseYAML reads block YAML of a document as that document, and never panics.",
     ["inputs"], "every document with printable strings (without control characters, line separators, keys above 1024 bytes and the key `<<`, which YAML reserves for merging)",
     "YAML decides the type of a scalar by its spelling; only generated strings cover the spellings",
     ["yamlutils.go"],
     [("YAML writer", "yamlutils.go yamlString"), ("YAML reader", "yamlutils.go ParseYAML")],
     "property-based testing: round trip and differential on generated documents")
prop("P09", "Query strings and nested documents convert into each other without loss",
     "For every dict d of non-empty nested dicts and arrays of texts whose key segments hold no dot (and whose root has no empty key), ParseQueryString(d.QueryString()) is d with scalars as strings, independent of the order of the parameters; arrays of any length, also above 10 and inside dicts, keep their order. Percent-encoded keys and values are decoded exactly, a repeated key gives an array in order, and dotted keys give nested dicts and arrays (indexes 0..n-1). Every parameter of an accepted query is found in the document; parameters that contradict each other are reported as an error and never dropped.",
     ["inputs"], "every nested document and every query string",
     "key orders, lengths and depths combine; ordering mistakes show from the eleventh item or at unequal depths only",
     ["querystring.go", "stringsegment.go"],
     [("key ordering", "stringsegment.go compare, Less, string2Segments"), ("tree building", "querystring.go addQueryStringSeg, parseQueryString"), ("writer", "querystring.go _queryString, QueryString")],
     "property-based testing: round trip and model of generated query documents")
prop("P10", "A dict behaves as a map with sorted keys under every history of operations",
     "After any sequence of Set, Add (nested paths), Remove, RemoveIgnoreCase, Update and copying, a JSONDict holds exactly the entries an ordinary map would hold: Get, Contains, GetMap, SortedKeys, Length, Size and the printed text agree with it. Add creates missing (or null) dicts on its path, reports ErrInvalidJsonDict when the path leads through something else and then changes nothing behind it; Remove tells whether the key was there; RemoveIgnoreCase removes all keys equal under case folding; the case-insensitive Get prefers the exact key.",
     ["histories"], "every sequence of operations over every set of keys",
     "a sorted slice with binary search goes wrong for certain insertion orders, prefixes, bytes and sizes only",
     ["access.go", "dict.go", "length.go", "size.go"],
     [("insertion and removal", "access.go Set, Add, Remove, RemoveIgnoreCase"), ("lookup", "access.go JSONDict._get"), ("merging", "dict.go Update, UpdateDefault")],
     "stateful property-based testing against a map model")
prop("P11", "An array behaves as a list under every history of operations",
     "After any sequence of Add, SetAt and Copy a JSONArray holds exactly the items a list would hold: GetAt with indexes from 0 and negative ones from the end, GetArray, GetStringArray, Length, Size and the text agree, other indexes give ErrOutOfIndexRange. Copies, the slices handed out by GetArray and those given to NewArray and Add are independent of the array.",
     ["histories"], "every sequence of operations, indexes inside and outside",
     "aliasing of the backing store shows only after particular sequences of appends and copies",
     ["access.go", "clone.go", "utils.go"],
     [("items", "access.go JSONArray.Add, SetAt, GetAt, GetArray"), ("copies", "clone.go JSONArray.Copy, access.go NewArray")],
     "stateful property-based testing against a list model")
prop("P12", "Update, UpdateDefault, Diff and the partial copies obey their algebra",
     "For all dicts a, b: a.Update(b) has the keys of both with the values of b winning, a.UpdateDefault(b) with those of a winning. Diff(a, b) splits them into keys only in a, pairs [a's, b's] of values not Equal, values that are Equal, and keys only in b, which together account for every key once and allow rebuilding a and b; CopyIncludes, CopyExcludes and Copy keep exactly the named (or other) keys. None of them changes its argument or source, and changing a result never changes the operands' own keys.",
     ["inputs"], "all pairs of dicts with overlapping, equal, case-variant and disjoint keys; all key lists",
     "merging two sorted sequences depends on every interleaving of the keys and on either side ending first",
     ["dict.go", "clone.go"],
     [("merge and split", "dict.go Update, UpdateDefault, Diff"), ("partial copies", "clone.go CopyIncludes, CopyExcludes, Copy")],
     "property-based testing: set-algebra reference over generated pairs")
prop("P13", "Equals holds exactly for documents of the same content",
     "Equals is true for two documents exactly if they have the same type and content: the same scalars, arrays item by item, dicts with the same keys and Equal values, however they were made (built, parsed, copied, in any insertion order). It is reflexive, symmetric and agrees with equality of the printed texts for documents without floats; a change of one leaf, key, type, length or order makes it false, and comparing with nil is false.",
     ["inputs"], "all pairs of documents, in particular those that differ in one place",
     "false positives need a pair differing in one special place (last key, nested, other type)",
     ["equals.go"],
     [("comparison per type", "equals.go")],
     "property-based testing: one-place mutants against model equality")
prop("P14", "A deep copy is equal to its source and independent of it",
     "DeepCopy of any document (function and methods) has the same type and is Equal, prints identically, keeps node ids and references (which then refer to the copied nodes); after that, no change of any container of the copy changes the source and the other way round. DeepCopy(nil) is nil.",
     ["inputs", "histories"], "every document, shared parts and references included, and every later change of either",
     "a forgotten level of copying shows only when exactly that level is changed later",
     ["clone.go"],
     [("copying per type", "clone.go sDeepCopySession.deepCopy, DeepCopy")],
     "property-based testing: copy, mutate one side, compare the other with the model")
prop("P15", "Typed getters find the value at a path and convert it, or say why not",
     "Get, GetString, Int, Float, Bool, GetTime, GetArray, GetMap, GetAt and Contains with a path return what walking the document key by key gives: an absent key is ErrJsonDictKeyNotFound, a path through a non-dict is ErrInvalidJsonDict, keys on a scalar or array are an error. Numbers and booleans given as strings are converted (decimal int64; floats; true/on/yes/1 and false/off/no/0 in any case), integers are valid floats, a scalar is an array of one, GetString gives the raw string or the printed text; every value that has no such reading gives an error of the documented kind and the zero value. Unmarshal with a path acts on the value Get finds. No getter panics or changes the document.",
     ["inputs"], "every document, every path into it (existing, absent, through other types), every scalar text",
     "getter x stored type x path shape is a large product with string contents on top",
     ["access.go", "errors.go"],
     [("path lookup", "access.go JSONDict._get"), ("conversions", "access.go JSONString.Int, Float, Bool, GetTime and their siblings"), ("error kinds", "errors.go")],
     "property-based testing: reference lookup and conversion over generated documents and paths")
prop("P16", "A Go value survives Marshal, printing, parsing and Unmarshal unchanged",
     "For every value of a type made of booleans, all integer and float kinds, strings, slices, arrays, string-keyed maps, pointers, structs with json tags and embedded structs, time.Time, tristates, named types of these and JSON typed fields, unmarshalling the marshalled document - directly or after printing and parsing it - into a fresh variable gives an equal value, apart from documented losses: ignored fields, omitted empty values that become zero values, nil items, times to the microsecond in UTC, unsigned values above MaxInt64.",
     ["programs", "inputs"], "every Go type built from these kinds and every value of it",
     "the types are unbounded; tests contain a few dozen structs",
     ["marshal.go", "unmarshal.go"],
     [("encoding by kind", "marshal.go _marshalValue, struct2JSONPairs, marshalMap, marshalSlice"), ("decoding by kind", "unmarshal.go _unmarshalValue, unmarshalStruct, unmarshalMap")],
     "property-based testing: generated Go types (reflect.StructOf) and values, round trip")
prop("P17", "Marshal names, omits and formats every part by its field tags",
     "The document of a struct has one key per exported field - the json tag name or else the kebab-case Go name with underscores - with embedded structs inlined under their own fields' names (of several fields of one name the last wins); fields tagged - are absent. omitempty and omitzero, allowempty and allowzero, the string option, nil pointers and empty values behave as documented, map keys are strings in sorted order, nil yields null; MarshalAll keeps what Marshal omits by default. Marshalling a pointer equals marshalling its value, is deterministic, and a JSON object marshals as itself.",
     ["programs", "inputs"], "every Go type with any combination of tags and nested or embedded parts, and every value, with nil and empty parts anywhere",
     "tag options x kinds x emptiness x nesting is far too large for examples",
     ["marshal.go", "marshal_session.go"],
     [("struct fields and tags", "marshal.go struct2JSONPairs, marshalStruct, findValueByKey"), ("omission per kind", "marshal.go marshalInt64, marshalFloat64, marshalBoolean, marshalString, marshalTristate, marshalTime")],
     "property-based testing: generated tagged types against a reference encoder")
prop("P18", "Shared and cyclic pointer graphs marshal to finite text and are rebuilt",
     "Marshal of any graph of structs linked by pointers, slices, maps and embedded structs ends, is deterministic and gives finite text in which a pointer back to an enclosing node appears as a reference <n> to that node's id. Unmarshalling it, also after printing and parsing, gives a graph that cannot be told apart from the original by following pointers, with cycles closed onto the very same node and every object on a cycle rebuilt as one object; a graph without cycles gives plain JSON without ids, and references are followed by Get step by step.",
     ["inputs"], "every pointer graph over types with pointer, slice, map and embedded links",
     "graphs are unbounded; the order in which nodes and references appear decides which code path resolves them",
     ["jsonpointer.go", "json_pointer_trace.go", "marshal.go", "unmarshal_session.go", "parse_session.go"],
     [("detection of loops", "json_pointer_trace.go push, find; marshal.go marshalValueWithObjectMap"), ("node ids in text", "write.go JSONDict.buildString, parse_session.go"), ("resolution on unmarshal", "unmarshal_session.go saveNodeValue, setPointerValue, restoreMapItems")],
     "property-based testing: generated pointer graphs, bisimulation oracle")
prop("P19", "Scalars convert into every kind of Go variable by one fixed table",
     "Unmarshalling a number, boolean, string or null into a Go variable of any kind (int, uint, float, bool, string, pointer, interface, tristate, JSON typed), at top level, in a field, slice, array or map, stores the value the conversion table gives: numbers and numeric strings with US or EU digit groups into numbers, true/yes/on/1 words into booleans and tristates, anything into strings as its text, null as the zero value. What has no conversion is an error and leaves the variable as it was; arrays and dicts are refused by scalars (ErrTypeMismatch) and taken as text by strings. The outcome does not depend on where the variable is, nor on its former value.",
     ["inputs"], "every scalar document x every target kind x every position (values that fit the target)",
     "document kind x target kind x position x spelling of the value",
     ["unmarshal.go", "currency.go"],
     [("conversion tables", "unmarshal.go JSONInt/JSONFloat/JSONBool/JSONString._unmarshalValue"), ("grouped numbers", "currency.go normalizeCurrencyString")],
     "property-based testing: conversion matrix against a reference table")
prop("P20", "Unmarshal touches what the document names, and nothing else",
     "Unmarshalling a dict into a struct sets exactly the fields named in it: absent fields, ignored and unexported fields keep their values, unknown keys are skipped, null zeroes the field, nested structs and maps are merged, other values replaced. A field whose value does not fit is reported in the error, while all other fields are set as if it were absent. Update(dst, src) is Marshal(src) unmarshalled into dst and obeys the same rules.",
     ["programs", "inputs"], "every struct type, every value it holds before, every document (partial, with unknown keys, with misfit values)",
     "the earlier content of the target, the type and the document vary independently",
     ["unmarshal.go", "update.go"],
     [("field by field assignment and error collection", "unmarshal.go unmarshalStruct, setStructFieldAt"), ("maps and slices", "unmarshal.go unmarshalMap, JSONArray._unmarshalValue"), ("update", "update.go Update")],
     "property-based testing: generated types, prior values and documents against a reference merge")
prop("P21", "Keys find their struct field in every usual spelling, deprecated names forward",
     "A key sets the field whose json name or kebab-case Go name it is; if there is none, the fields whose Go name has the same words, set off by capitals, - or _ (fooBar, foo-bar and Foo_Bar for FooBar); a key that matches no field sets none, and an exact match never sets another field as well. A value for a field tagged deprecated-by is also set on the field that tag names, along any chain of such tags, and ends on chains that loop; of several keys that reach one field the last in sorted order wins; marshalling writes the value of the new field under both names when the deprecated one is empty.",
     ["programs", "inputs"], "every set of field names, tags and deprecation chains, every spelling of keys",
     "names collide only in special combinations of case, digits and separators; chains can loop",
     ["unmarshal.go", "marshal.go", "consts.go"],
     [("matching", "unmarshal.go setStructFieldAt"), ("deprecated-by", "unmarshal.go setStructFieldAt visited set, marshal.go struct2JSONPairs")],
     "property-based testing: generated structs and key spellings against a reference matcher")
prop("P22", "Types with own JSON methods and AfterUnmarshal hooks are honoured everywhere",
     "A type with MarshalJSON or UnmarshalJSON is written and read through them wherever it occurs - field, pointer, slice, array, map value, embedded - and what they get or give is the JSON value of that part; an error of UnmarshalJSON is reported and does not stop the other fields. AfterUnmarshal of every struct unmarshalled, nested and embedded ones included, runs after its fields are set, also when some field failed; registered serializable interfaces are created and filled, and JSONDeserialize gives what Parse and Unmarshal give.",
     ["programs", "inputs"], "every position of a type with methods, every value, failing and succeeding hooks",
     "position x receiver kind x nil-ness decides whether a method is found",
     ["std_json.go", "unmarshal.go", "marshal.go", "reflect.go"],
     [("standard interfaces", "std_json.go tryStdMarshal, tryStdUnmarshal, indirectStdUnmarshaler"), ("after hooks", "unmarshal.go callStructAfterUnmarshal"), ("serializables", "reflect.go JSONDeserialize, unmarshal.go JSONDict._unmarshalValue")],
     "property-based testing: types with recording hooks in generated positions and values")
prop("P23", "Reading never changes a document and is safe from many goroutines at once",
     "No printer, getter, comparison, copy, conversion, marshalling or unmarshalling from a document changes it, nor the shared constants JSONTrue, JSONFalse and JSONNull, and what callers do with the maps, slices and copies they got and with the Go containers, JSONArray and JSONDict values they unmarshalled into does not change it either (only writing into a nested object of the document itself does). Any number of goroutines may therefore read the same documents, parse, marshal the same values and unmarshal the same documents into own targets at the same time, without a data race and with the results of a sequential run.",
     ["schedules", "histories"], "every set of reading operations on shared documents, in any interleaving",
     "a hidden write shows only under the race detector, in a test that happens to share exactly that object",
     ["string.go", "access.go", "clone.go", "unmarshal.go", "marshal.go", "jsonpointer.go"],
     [("printers", "string.go, write.go"), ("handed out maps and slices", "access.go GetMap, GetArray"), ("JSON typed targets", "unmarshal.go _unmarshalValue")],
     "property-based testing under the race detector: generated concurrent readers, sequential oracle")
prop("P24", "Plain Go views of a document carry its exact content",
     "Interface() gives nil, bool, int64, float64, string, []interface{} and map[string]interface{} of exactly the document's content at every level, Value, Length, Size and IsZero agree with it, and marshalling that plain value (MarshalAll, encoding/json) gives the document again. The plain value and the document are independent of each other.",
     ["inputs"], "every document without cyclic references",
     "types and nil-ness per level must be right for every nesting",
     ["interface.go", "values.go", "iszero.go", "length.go", "size.go"],
     [("conversion", "interface.go"), ("views", "values.go, iszero.go, length.go, size.go")],
     "property-based testing: reference conversion and round trip")
prop("P25", "Request helpers return exactly the parameters that are present, in order",
     "GetQueryStringArray gives the texts of an array, of a single string, or of a dict's keys 0, 1, 2, ... up to the first gap, in order; GetArrayOfPrefix gives the values of prefix.0, prefix.1, ... up to the first that is absent or null; GetAnyString2 the first non-empty value of the listed keys and its key; GetStringArray and NewStringArray convert both ways without loss; QueryBoolean the boolean word or the default if absent. CheckRequiredFields reports ErrMissingInputField or ErrNilInputField for the first listed field that is absent or null, and nil if none is.",
     ["inputs"], "every request document, key and list of keys",
     "arrays of any length, gaps, nulls and types at each index",
     ["utils.go", "querystring.go"],
     [("lookups", "utils.go GetQueryStringArray, GetArrayOfPrefix, GetAnyString2, CheckRequiredFields, GetStringArray"), ("booleans", "querystring.go QueryBoolean")],
     "property-based testing: reference lookups over generated request documents")
prop("P26", "Timestamps and grouped numbers are read as the instants and amounts they denote",
     "Every instant written in ISO 8601 (with or without fraction, seconds, zone), MySQL, compact, date-only or RFC 1123 notation is read by GetTime as that instant (and by time.Time fields in the ISO, MySQL, compact and date notations); NewTimeString and marshalled times are UTC and denote the same instant to the second or microsecond. Text that is no time gives an error from GetTime, and a zero time in a time.Time field without disturbing other fields. Numbers written with US (1,234.50) or EU (1.234,50) digit groups are stored in number fields as the amount they denote.",
     ["inputs"], "every instant from year 1 to 9999 in every zone and notation; every amount in both styles",
     "dates, zones, fractions and group lengths combine; month ends and short fractions are rarely sampled",
     ["access.go", "utils.go", "unmarshal.go", "marshal.go", "currency.go"],
     [("time getters", "access.go JSONString.GetTime"), ("time fields", "unmarshal.go JSONString._unmarshalValue, marshal.go marshalTime"), ("amounts", "currency.go")],
     "property-based testing: generated instants and amounts, written by an independent formatter")
prop("P27", "Unmarshalling any document into any type ends with a result or an error",
     "Unmarshal of any document - whatever its shape, with null, references (resolvable or not) and node ids anywhere - into any addressable Go variable ends without a panic. It leaves the document unchanged, and doing it again into an equal variable gives the same value and the same error. A reference to a struct is stored only in a pointer of its type, before or after the node, and is an error for any other variable.",
     ["programs", "inputs"], "every document x every target type, matching or not",
     "a panic needs one particular pairing of a document shape with a target type",
     ["unmarshal.go", "unmarshal_session.go", "std_json.go"],
     [("type dispatch", "unmarshal.go _unmarshalValue per type"), ("references", "unmarshal_session.go setPointerValue, setNodeValue"), ("reflection on interfaces and pointers", "std_json.go indirectStdUnmarshaler")],
     "fuzzing: generated documents into generated types, crash and determinism oracle")
prop("P28", "Relaxed notations of a document are read as the document they stand for",
     "Parse also reads documents in relaxed notations: strings and keys between single quotes; keys and strings without quotes up to the next blank, colon, comma or closing bracket, and taken literally; null and none, true and yes, false and no in any letter case as values, but as text when quoted, part of a longer word or a key; \\xHH as the byte HH, any other escaped character as itself; raw control characters inside quotes; integers with a plus sign or leading zeros (decimal); a trailing comma; a dict value left out (null). Unquoted text that is no number and none of these words is a string.",
     ["inputs"], "every document in every mixture of these notations",
     "notations mix freely and the reading of a bare word depends on its exact spelling and place",
     ["jsonutils.go"],
     [("bare words and quotes", "jsonutils.go parseString, parseQuoteString"), ("words and numbers", "jsonutils.go parseJSONValue"), ("separators", "jsonutils.go parseDict, parseArray")],
     "property-based testing: generated notations of generated documents")
prop("P29", "A parse error names the place where the text stops making sense",
     "The error for a malformed text reads 'JSON error <what> at <n>: <excerpt>...', where n is the byte position, counted from the start of the whole text given, of the first byte that cannot belong there (a character in the place of a colon or comma, a closing bracket of the wrong kind, the digits of a broken \\u or \\x escape), or the last byte if the text ends early; the excerpt shows up to ten bytes before the place, a ^ and up to ten bytes from the place on. NewJSONError does so for any text and any position, moving positions outside to the nearest byte.",
     ["inputs"], "every single damage of every document at every place, also in a stream behind other documents",
     "positions depend on everything before the damage; a test pins one or two",
     ["jsonutils.go", "errors.go"],
     [("places", "jsonutils.go parseDict, parseArray, parseQuoteString, ParseStream"), ("message", "errors.go NewJSONError, JSONError.Error")],
     "property-based testing: damage at a known place, reference message")
prop("P30", "Unmarshal errors keep their kind and name the fields, at any depth",
     "When a part of a document does not fit its Go variable, the error of Unmarshal has, however deep the part lies inside structs, slices, arrays, maps and pointers, the documented kind as its cause: ErrArrayLengthMismatch for an array of another length than the Go array, ErrMapKeyMustString for a map without string keys, ErrInterfaceUnsupported for a dict into an interface{}, ErrTypeMismatch for a container into a scalar, a scalar or the wrong container into a container or a JSON type, a strconv error for text that is no number. Its text names the struct keys on the way; several misfits in one struct are all reported.",
     ["programs", "inputs"], "every misfit of document and type below every nesting of Go types",
     "each level of nesting wraps or collects errors in its own way; tests look at one level",
     ["unmarshal.go", "errors.go"],
     [("kinds", "unmarshal.go _unmarshalValue per type"), ("wrapping and collecting", "unmarshal.go unmarshalStruct, setStructFieldAt, unmarshalMap")],
     "property-based testing: generated misfits in generated nestings, expected kind")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            q = {k: v for k, v in p.items() if k != "technique"}
            f.write(json.dumps(q) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 run.py " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration",
            "level_note": "generated search with shrinking; the oracle is independent of the code; says nothing about cases that were not generated",
        } for p in P],
        "not_applicable": [],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
