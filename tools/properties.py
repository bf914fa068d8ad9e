#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json for the properties that have a check."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _tech=tech, _note=note, _level=level))

p("C01", "Reading and writing an MPD loses and changes nothing",
  "Every element and attribute of the DASH vocabulary that the package models (MPD, SCTE-35, SCTE-214, CENC and DRM extensions) that appears in an input manifest appears in the manifest written after reading it, with the same namespace, position, order and meaning, whatever namespace prefixes, quoting, references, CDATA, comments or white space around values the input uses. Nothing is invented, duplicated or moved to another parent. Permitted differences are attribute order, prefixes, equivalent lexical forms, and zero or default values that are left out or spelled out.",
  ["inputs"], "all well-formed manifests over the modelled vocabulary, in every surface form, read by any of the readers and written with any indentation",
  "The tests compare about 80 manifests, most of which use one prefix convention and a small part of the vocabulary; 755 attributes and elements in arbitrary combinations cannot be sampled by hand.",
  ["mpd/mpd.go", "mpd/scte35.go", "mpd/io.go", "xml/read.go", "xml/marshal.go", "xml/typeinfo.go"],
  [("struct tags of the MPD types", "mpd/mpd.go"), ("custom marshalers of SCTE-35 and scalar types", "mpd/scte35.go, mpd/duration.go"), ("tag interpretation", "xml/typeinfo.go"), ("decoder to struct", "xml/read.go"), ("encoder from struct", "xml/marshal.go")],
  "runtime monitoring: trace of read+write compared with a namespace-aware infoset oracle",
  "Generated documents over an independent vocabulary table; the systematic part covers every attribute, child and text of every type at least once. Trusts the harness's own XML parser.")
p("C02", "Writing an MPD structure and reading it back gives the same structure",
  "For every MPD structure whose values are in range, writing it (with or without header, with any white-space indentation) and reading the text gives a structure equal to it field by field, up to fields that are zero or empty. This holds for every exported serialised field of every type reachable from an MPD.",
  ["inputs"], "all MPD values in range: every subset of fields and children, list lengths, optional values and special numbers such as infinities",
  "Tests build a handful of structures; the field space is several hundred fields in arbitrary combination.",
  ["mpd/mpd.go", "mpd/scte35.go", "mpd/duration.go", "mpd/io.go", "xml/read.go", "xml/marshal.go"],
  [("symmetric struct tags", "mpd/mpd.go"), ("MarshalXMLAttr/UnmarshalXMLAttr of scalar types", "mpd/duration.go, mpd/mpd.go"), ("writer and readers", "mpd/io.go")],
  "runtime monitoring: round-trip oracle on reflectively populated structures",
  "Populates every field found by reflection; comparison is field by field by the harness, not by the code under test.")
p("C03", "Whatever an MPD holds, the text written is well-formed and says only that",
  "Whatever strings an MPD structure carries (control characters, invalid UTF-8, markup, quotes, line ends), the document written is well-formed namespaced XML with exactly the markup its structure calls for, so that no string value can add, close or change an element or an attribute. Every string reads back as it was, with characters that XML cannot carry replaced by U+FFFD (content declared as raw inner XML is excluded).",
  ["inputs"], "all byte strings in all string fields at all places of all structures, any indentation",
  "Tests never write hostile strings; injection is a statement about all strings in all fields.",
  ["xml/xml.go", "xml/marshal.go", "mpd/io.go", "mpd/mpd.go"],
  [("escaping", "xml/xml.go EscapeText, escapeText"), ("attribute and character data writing", "xml/marshal.go"), ("custom marshalers", "mpd/scte35.go, mpd/duration.go")],
  "runtime monitoring: independent strict parser as well-formedness oracle, markup compared with a benign twin",
  "Hostile alphabets plus random bytes in every string field found by reflection.")
p("C04", "Reading and writing are stable, deterministic and leave their operands alone",
  "A written manifest read and written again with the same options is byte-identical, and reading or writing the same thing repeatedly gives the same result each time. Writing does not change the MPD that is written, and reading does not change the buffer read nor keep it aliased in the result. An MPD that was read shares nothing with others that were read: changing it in place does not change them, nor what is read later.",
  ["inputs", "histories"], "all manifests and MPD structures, repeated reads and writes in any order",
  "Tests compare one write against a golden file; they cannot settle stability or absence of side effects over all inputs.",
  ["mpd/io.go", "xml/marshal.go", "xml/read.go", "mpd/mpd.go"],
  [("buffer and encoder reuse", "mpd/io.go, xml/marshal.go"), ("namespace declarations", "xml/marshal.go")],
  "runtime monitoring: fixpoint and purity monitors on snapshots",
  "Generated documents and all manifests shipped with the repository.")
p("C05", "A damaged or invalid manifest is refused, never half-read",
  "A manifest that is truncated anywhere before its root element ends, that is not well-formed XML up to there, whose root is not MPD, or in which a typed value (number, boolean, duration) is outside its value space is refused with an error. All readers refuse it and none of them returns a partly filled MPD along with a success.",
  ["inputs"], "all truncation points, all well-formedness violations, all typed attributes and elements with values outside their value space",
  "Tests have one invalid and two truncated files.",
  ["xml/xml.go", "xml/read.go", "mpd/io.go", "mpd/duration.go", "mpd/mpd.go"],
  [("syntax errors of the tokenizer", "xml/xml.go"), ("value parsing", "xml/read.go copyValue, mpd/duration.go ParseDuration"), ("error propagation", "mpd/io.go")],
  "runtime monitoring: fault injection into valid manifests, refusal oracle; encoding/xml as reference tokenizer",
  "Every proper prefix of the generated manifests, every typed attribute of the vocabulary table.", "fault_enumeration")
p("C06", "No input makes the library panic, hang or consume unbounded resources",
  "Reading any bytes, and writing, cloning or querying any MPD that was read or built, returns with a result or an error: it does not panic, overflow the stack or loop. Time and memory are proportional to the size of the input (a depth limit applies to nesting).",
  ["inputs"], "all byte sequences, including markup soup, deep nesting and very long or repetitive documents, strict and lenient decoding; all structures including those with absent parts",
  "A test samples a few inputs; hangs and quadratic behaviour hide in input shapes nobody wrote down.",
  ["xml/xml.go", "xml/read.go", "xml/marshal.go", "mpd/io.go", "mpd/scte35.go", "mpd/duration.go"],
  [("tokenizer loops", "xml/xml.go"), ("depth limit", "xml/read.go"), ("nil handling", "xml/marshal.go")],
  "runtime monitoring: panic, CPU-time, allocation and token-count monitors under hostile inputs",
  "Limits are CPU time and allocated bytes per input byte, never wall-clock time.")
p("C07", "Durations are rendered and parsed exactly",
  "Every duration is rendered as a valid xs:duration, signed if it is negative, whose value is that duration rounded to milliseconds (non-zero durations that would round to zero are rendered in full). Parsing a duration text (designators days to seconds in order, fractions of seconds, surrounding white space in attributes) gives its exact value rounded to a nanosecond. Texts which are not durations, are negative, use unsupported designators (years, months) or are out of range give an error.",
  ["inputs"], "all 2^64 durations and all texts",
  "Tests list some twenty durations.",
  ["mpd/duration.go"], [("Duration.String", "mpd/duration.go"), ("ParseDuration", "mpd/duration.go"), ("MarshalXMLAttr and UnmarshalXMLAttr", "mpd/duration.go")],
  "runtime monitoring: exact-rational reference reading as oracle",
  "The oracle computes with exact rationals.")
p("C08", "DateTime conversions are exact over the whole calendar",
  "Converting a time (fractional seconds, whole seconds, milliseconds since the epoch) to a DateTime and back to seconds gives the same instant to the precision the conversion promises, for every year from 1 to 9999, before and after the epoch. The text is the UTC calendar date and time of that instant, whatever the time zone of the process, and texts that are not dates give an error.",
  ["inputs"], "all instants of years 1 to 9999 at millisecond resolution, all zone offsets and fractions in texts",
  "Tests check a few instants after 1970.",
  ["mpd/duration.go"], [("ConvertToDateTime family", "mpd/duration.go"), ("ConvertToSeconds", "mpd/duration.go")],
  "runtime monitoring: independent proleptic Gregorian calendar as oracle",
  "The float conversion is documented to crop to milliseconds.")
p("C09", "Period types, starts and durations follow the DASH timing rules",
  "For every list of Periods, the type of each Period (regular, early available, early terminated), its absolute start and its duration are what ISO/IEC 23009-1 5.3.2.1 derives from the @start and @duration attributes of it and its neighbours and the MPD's type and @mediaPresentationDuration. Where they do not determine a value, an error is returned.",
  ["inputs", "configurations"], "all combinations of present and absent attributes over lists of Periods of any length, static and dynamic",
  "Tests check a few lists; the rules interact over neighbours.",
  ["mpd/period.go", "mpd/errors.go"], [("GetType, GetStart, GetDuration", "mpd/period.go")],
  "runtime monitoring: model of the timing rules as oracle, exhaustive for short lists",
  "Exhaustive over presence combinations for up to 3 Periods (thorough 4), random beyond.")
p("C10", "Parent links and indices always describe the tree",
  "After any sequence of appends, inserts, removals, re-parenting, reads, clones and calls that set the parents, every AdaptationSet, Representation and Period that was linked by the library refers to the parent that holds it, and Periods know their position in the MPD. Operations on one tree never touch another.",
  ["histories"], "all sequences of tree operations over several trees",
  "Tests do single operations on single trees.",
  ["mpd/parents.go", "mpd/mpd.go", "mpd/up.go", "mpd/io.go"], [("SetParents", "mpd/parents.go"), ("Append functions", "mpd/mpd.go"), ("Parent accessors", "mpd/up.go")],
  "runtime monitoring: model-based history checking after every operation",
  "The model gives the link of each node after each operation.")
p("C11", "A clone is a complete, independent copy",
  "The clone of an MPD, Period or AdaptationSet is equal to the original in every field, writes the same text and is linked within itself. It shares no memory with the original, so that no change of either is seen in the other.",
  ["inputs", "histories"], "all structures with all fields populated, and all changes of either side",
  "Tests compare a few fields of one clone.",
  ["mpd/mpd.go", "mpd/period.go", "mpd/parents.go"], [("Clone functions", "mpd/mpd.go, mpd/period.go")],
  "runtime monitoring: reachable-memory disjointness and field equality monitors",
  "Walks all memory reachable from both by reflection.")
p("C12", "Values are inherited along the tree and URL templates expand exactly",
  "The segment template, MIME type, codecs and content protections that the getters of a Representation or AdaptationSet answer with are those of the Representation if it sets them, else those of its AdaptationSet, and an empty answer (for templates to expand, an error) where neither does. Expanding an initialization or media template replaces each $RepresentationID$ and $Bandwidth$ (with width formats) by the value, leaves $Number$, $Time$ and every other part exactly as it is.",
  ["inputs", "configurations", "histories"], "all subsets of levels that set a value, all ways to build the tree, all template strings",
  "Tests use one tree and three templates.",
  ["mpd/mpd.go", "mpd/parents.go"], [("GetSegmentTemplate, GetMimeType, GetCodecs, GetContentProtections", "mpd/mpd.go"), ("GetInit, GetMedia", "mpd/mpd.go")],
  "runtime monitoring: model of inheritance and an independent template tokeniser as oracle",
  "Templates with an odd number of $ are outside the property.")
p("C13", "SCTE-35 and SCTE-214 content is understood and written in its own namespaces",
  "SCTE-35 signals (XML and binary form, in either namespace edition, under any prefixes) carried in Events are read with every field and written in the namespace they came from, and the helpers that build or interpret them (signals, segmentation, SCTE-214 attributes and supplemental codecs) give what was put in; the named segmentation types, schemes and namespaces have the values of the standards. Raw extension content is replayed verbatim.",
  ["inputs"], "all signals over the SCTE-35 and SCTE-214 vocabulary with all mixtures of editions and prefixes",
  "Tests use a dozen documents with one prefix each.",
  ["mpd/scte35.go", "mpd/scte214.go", "mpd/mpd.go"], [("MarshalXML and UnmarshalXML of SCTE types", "mpd/scte35.go"), ("SCTE-214 helpers", "mpd/scte214.go")],
  "runtime monitoring: namespace-aware infoset oracle",
  "Known finding: raw Ext content that uses prefixes declared by ancestors.")
p("C14", "Every write error is reported and the byte count is right",
  "When the destination fails at any byte, the write function reports that error, what was delivered before is a prefix of the document, nothing more is written afterwards, and the byte count returned is the number of bytes the destination accepted. When nothing fails, the whole document is delivered, with the XML declaration exactly when it was asked for, and the count is its length.",
  ["fault_sequences", "inputs"], "a fault at every byte position, of every kind, for every writing function, document and option",
  "Tests have one failing writer.",
  ["mpd/io.go", "mpd/mpd.go", "mpd/period.go", "xml/marshal.go"], [("byte counting", "mpd/io.go"), ("sticky errors and flush", "xml/marshal.go"), ("pooled encoders", "xml/marshal.go")],
  "runtime monitoring: fault injection at every output byte with a recording writer",
  "Writers that break the io.Writer contract are outside the property.", "fault_enumeration")
p("C15", "Reused encoders carry nothing over from earlier use",
  "Whatever was written before with any encoder, pooled or not, successfully or with an error, a panic or an abandoned element, the next write gives exactly the bytes, error and count that a fresh encoder would give. After an encoder was released, nothing more reaches its former destination.",
  ["histories", "fault_sequences"], "all sequences of acquisitions, writes, failures and releases",
  "Tests use the pool once or twice with one document.",
  ["xml/marshal.go", "mpd/io.go"], [("AcquireEncoder, ReleaseEncoder", "xml/marshal.go"), ("printer state reset", "xml/marshal.go")],
  "runtime monitoring: each operation of a random history compared with a fresh encoder",
  "Histories run on one goroutine so that the pool hands back the same encoder.")
p("C16", "Concurrent use is free of races and gives the serial result",
  "Any number of goroutines may at the same time read manifests, write or clone or query the same MPD, and use pooled or own encoders and decoders, also for types seen for the first time. There is no data race, and each gets the result it would have got alone.",
  ["schedules"], "all schedules of concurrent readers, writers, cloners and getters that share MPDs, caches and pools",
  "Tests run sequentially.",
  ["xml/typeinfo.go", "xml/marshal.go", "mpd/io.go", "mpd/mpd.go"], [("type information cache", "xml/typeinfo.go"), ("encoder pool", "xml/marshal.go")],
  "runtime monitoring: Go race detector plus comparison with the serial result, yielding writers and readers",
  "Race detector on the real code; interleavings are stirred by yields at every read and write call.")
p("C17", "The decoder's token stream is the document",
  "The tokens that the XML decoder delivers (names resolved to namespaces, attributes, text, comments, instructions, directives), their positions and the error at which they end are those that the document has, and agree with the Go standard library except where this package documents a difference. They do not depend on how the input is cut into read calls, and a copied token is not changed by further decoding.",
  ["inputs", "schedules"], "all documents, all chunkings of the reader, all decoder options",
  "Tests list some documents read in one piece.",
  ["xml/xml.go"], [("Token, RawToken", "xml/xml.go"), ("namespace translation", "xml/xml.go"), ("InputPos, InputOffset", "xml/xml.go"), ("CopyToken, Skip", "xml/xml.go, xml/read.go")],
  "runtime monitoring: differential oracle (encoding/xml) and chunking invariance",
  "encoding/xml of the installed Go is the reference; documented differences are mapped by name.")
p("C18", "Unmarshalling into Go types follows the documented tag rules",
  "Unmarshalling any document into any Go type with XML struct tags (attributes, elements, paths, text, CDATA, comments, inner XML, any, embedded structs, pointers, slices, interfaces, custom unmarshalers) stores what the Go standard library stores for it, also up to an error. It fails where the standard library fails. An attribute goes to one field, and one that names its namespace goes before one that names none.",
  ["inputs", "programs"], "all struct types with tags and all documents",
  "Tests list some types and documents.",
  ["xml/read.go", "xml/typeinfo.go"], [("unmarshal", "xml/read.go"), ("getTypeInfo", "xml/typeinfo.go")],
  "runtime monitoring: differential oracle (encoding/xml) on generated types and documents",
  "Types are made with reflect.StructOf and from a table of handwritten types.")
p("C19", "Marshalling Go types follows the documented tag rules",
  "Marshalling any Go value with XML struct tags without namespace prefixes produces a document with the elements, attributes and text that the Go standard library produces for it, with or without indentation (the choice of namespace prefixes, and how line ends and tabs in text are escaped, is free). It fails where the standard library fails. The value and the start element it is given are left as they were.",
  ["inputs", "programs"], "all struct types with tags and all values",
  "Tests list some types and values.",
  ["xml/marshal.go", "xml/typeinfo.go"], [("marshalValue, marshalAttr", "xml/marshal.go"), ("getTypeInfo", "xml/typeinfo.go")],
  "runtime monitoring: differential oracle (encoding/xml) on generated types and values",
  "Compared as infosets where the two encoders choose different prefixes.")
p("C20", "Encoded namespaces are the ones asked for",
  "Any stream of start elements, attributes (no two of one element with one name) and end elements with arbitrary namespaces given to the encoder produces well-formed namespaced XML in which every element and attribute has the namespace and local name it was given (one given without a namespace takes the default namespace in scope). This holds however deep namespaces, prefixes and declarations are nested, shadowed or repeated.",
  ["inputs", "histories"], "all balanced token streams with arbitrary namespaces, prefixes and declarations",
  "Tests cover a few prefix situations.",
  ["xml/marshal.go"], [("prefix creation and scopes", "xml/marshal.go")],
  "runtime monitoring: independent namespace-aware parser as oracle",
  "Streams are generated with adversarial prefix reuse.")
p("C21", "The encoder refuses what is not XML",
  "The encoder reports an error for token streams and values that cannot be written as XML (end without start, mismatched or unclosed elements, empty names, misplaced XML declarations, instructions with invalid targets, instructions containing their end mark, comments with two dashes or a dash at their end, unbalanced directives and ones without a name, types without an XML form, use after Close), and in no case emits an unbalanced document while reporting success up to Close. Valid streams are accepted.",
  ["inputs", "histories"], "all token streams, valid and not",
  "Tests list some invalid streams.",
  ["xml/marshal.go"], [("EncodeToken", "xml/marshal.go"), ("Close", "xml/marshal.go")],
  "runtime monitoring: differential oracle (encoding/xml) and a strict parser on the output",
  "Streams are generated around a balanced core with single damages.")
p("C22", "Escaping is lossless and safe",
  "Escaped text contains no markup and reads back as the original with characters outside XML replaced by U+FFFD, in element content and in attribute values, whatever bytes it holds (text and attribute escaping may treat line ends and tabs differently as far as a reader sees the same). A CDATA field carries text of XML characters without carriage returns unchanged, whatever end marks the text contains. All escaping functions agree with each other on what a reader sees and report errors of the destination.",
  ["inputs", "fault_sequences"], "all byte strings, all writers",
  "Tests list a few strings.",
  ["xml/xml.go"], [("EscapeText, Escape", "xml/xml.go")],
  "runtime monitoring: independent parser as read-back oracle",
  "Exhaustive over all code points, all byte pairs, and random strings.")
p("C23", "Constructors and helpers build exactly what their arguments say",
  "For all arguments, the constructors and helper functions give structures in which each argument is in the field and the attribute it names, nothing else is set, and what they write reads back to the same values. Structures made by different calls share no memory. This includes default handling such as a timescale of 1, profile lists without duplicates (for profiles that are neither empty nor contain commas), inclusive byte ranges of boxes that are not empty, and durations from seconds to the microsecond, and the named profiles, schemes, DRM systems and namespaces have the values of the standards. Numbers are within what the attribute can hold.",
  ["inputs", "histories"], "all argument values and sequences of calls",
  "Tests call each constructor once.",
  ["mpd/mpd.go", "mpd/ptrs.go", "mpd/period.go", "mpd/scte214.go"], [("New functions", "mpd/mpd.go"), ("SetTimescale, GetTimescale", "mpd/mpd.go"), ("AddProfile", "mpd/mpd.go"), ("pointer helpers", "mpd/ptrs.go")],
  "runtime monitoring: model of each helper as oracle",
  "Boundary values and random arguments.")
p("C24", "Prefixed struct tags bind to namespaces, not to prefixes",
  "A struct tag with a namespace and a prefixed name is written as an element or attribute of that namespace under that prefix (another one only if the prefix already means another namespace on the same element) with the declaration in scope, and is read whatever prefix (or default declaration) the document uses for that namespace. A name of another namespace, or one whose prefix is not declared, is not taken for it, and nested, repeated and shadowed declarations do not change this.",
  ["inputs", "programs"], "all types with prefixed tags at all depths and all prefix choices in documents",
  "Tests cover a few tags.",
  ["xml/typeinfo.go", "xml/marshal.go", "xml/read.go"], [("prefix in tags", "xml/typeinfo.go"), ("prefix output", "xml/marshal.go"), ("name matching", "xml/read.go")],
  "runtime monitoring: independent namespace-aware parser and round-trip oracle",
  "Types are made with reflect.StructOf.")
p("C25", "All ways to read a manifest agree",
  "Reading the same bytes from a file, from a string or from a buffer gives equal MPDs with the same links, or an error from all of them. A file that cannot be read gives an error and no MPD, and reading never changes the file or the buffer nor holds on to them.",
  ["inputs", "fault_sequences"], "all byte sequences and all file conditions",
  "Tests use one reader per file.",
  ["mpd/io.go"], [("ReadFromFile, ReadFromString, MPDFromBytes", "mpd/io.go")],
  "runtime monitoring: agreement monitor over the readers",
  "Scratch files only, in a temporary directory.")
p("C26", "Every field carries the element or attribute it is named for",
  "Reading an MPD puts every attribute, child element and text of the vocabulary into the field of the Go structure that has its name, with exactly the value it denotes (numbers, booleans, durations to the nanosecond, lists, decoded strings), children in document order, and element names in XMLName. What is absent leaves its field nil, empty or zero, and an optional pointer is set exactly if its attribute is present. Conversely, a field that is set makes the writer emit that attribute, element or text with that value, and nothing else.",
  ["inputs"], "all manifests over the modelled vocabulary in all surface forms, and all structures with any subset of fields set",
  "Tests look at few fields by name: comparing what was written with what was read cannot see two fields that are exchanged on both sides, and 841 fields cannot be sampled by hand.",
  ["mpd/mpd.go", "mpd/scte35.go", "mpd/scte214.go", "mpd/duration.go", "xml/read.go", "xml/marshal.go", "xml/typeinfo.go"],
  [("struct tags", "mpd/mpd.go"), ("struct tags and marshalers of SCTE-35", "mpd/scte35.go"), ("decoder to struct", "xml/read.go"), ("encoder from struct", "xml/marshal.go")],
  "runtime monitoring: field-by-field comparison of what was read, and of what was written, with a model through an independent table of fields",
  "Systematic over every item of the vocabulary; the table of fields was written once and is not derived from the code when a check runs.")

built = [q for q in P if os.path.exists(os.path.join(here, "harness", q["id"].lower() + ".go"))]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in built:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="./setup.sh",
  hooks=dict(guard="verif", enable="none are needed: the harness links the packages of /repo's working tree as they are (go.mod replace)", source_commits=[]),
  checks=[dict(property=q["id"], quick_cmd="./check.sh " + q["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + q["id"],
     technique=q["_tech"], level=q["_level"], level_note=q["_note"]) for q in built],
  not_applicable=[])
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(built), "properties")
