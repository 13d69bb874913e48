#!/usr/bin/env python3
"""Writes properties.jsonl (edit the table here, run, commit both)."""
import json, os
SC="yam-core/src/parsing/scanner.rs"; PA="yam-core/src/parsing/parser.rs"; SO="yam-core/src/parsing/source.rs"
PI="yam-core/src/parsing/parser_iter.rs"; UT="yam-core/src/parsing/char_utils.rs"; LO="yam-core/src/prelude/loader.rs"; PR="yam-core/src/prelude/mod.rs"
SCAL="yam-core/src/node/scalar.rs"; YA="yam-core/src/node/yaml.rs"; YD="yam-core/src/node/yaml_data.rs"; YO="yam-core/src/node/yaml_owned.rs"; YS="yam-core/src/node/spanned_yaml.rs"
DE="yam-serde/src/de.rs"; SE="yam-serde/src/ser.rs"; ES="yam-serde/src/escape_str.rs"
def p(id,title,st,over,q,why,files,mech,obs,state=(),hook=None):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=obs,hook_needed=hook))
P=[
p("P01","No invalid memory access, no invalid UTF-8",
 "Whatever valid UTF-8 text is parsed, loaded, deserialized or written, through whichever public interface and source, the library never reads outside the input or its own buffers, never uses freed memory, and every string it hands out (events, tags, anchors, trees, serialized text) is valid UTF-8. Everything borrowed from the input lies inside it, and the result does not depend on bytes that happen to follow the input in memory.",
 ["inputs"],"every UTF-8 text, of any length and any placement in memory, through every public parsing, loading and serde entry point",
 "The tests parse a few hundred fixed snippets without a sanitizer; an over-read or a broken UTF-8 boundary shows only for certain bytes at certain offsets, and usually silently.",
 [SO,SC,PA,UT,LO,DE],
 [("unsafe slicing and unchecked UTF-8 conversions of the byte source",SO),("unchecked UTF-8 conversion of scanned scalars, anchors and tags",SC),("borrowed or owned text in events",PA)],
 ["Parser","ParserIter","load_from family","from_str","to_string"]),
p("P02","Work and memory are bounded by the input length",
 "On every finite input, parsing ends, with the stream end or an error, after an amount of work, of events and of memory linear in the input's length (the copies of aliased nodes in a loaded tree apart). No input makes the iterator, the event loader or a deserializer loop forever or produce events without consuming input.",
 ["inputs"],"every text, with emphasis on long repetitions of any unit with any prefix and suffix (deep nesting, long runs of blanks, breaks, indicators, quotes, block scalars) and on truncation at every point",
 "Tests run each snippet once and have no budget; quadratic scans and endless loops need particular repetitions or truncations.",
 [SC,SO,PA],
 [("token queue and simple-key bookkeeping",SC),("source look-ahead and skipping",SO),("state stack",PA)],
 ["calls into a counting Source, events produced and memory allocated per input byte"],
 [("look-ahead","bytes inspected without consuming","yam-core/src/parsing/source.rs")]),
p("P03","No panic, abort or overflow on any text",
 "No text and no supported Rust value makes any public entry point (iterating, peeking, loading events, loading trees, deserializing, serializing, walking and converting loaded trees) panic, overflow an integer or abort: it returns a result or an error. After an error further calls still return.",
 ["inputs","programs"],"every text through every public entry point; nesting up to the stack (recursion depth is a known finding)",
 "The tests contain no adversarial text; unwraps, asserts, index arithmetic and unreachable!() fail only for particular malformed inputs.",
 [SC,PA,SO,LO,SCAL,DE,SE,"yam-core/src/lazy_expander.rs"],
 [("error returns instead of unwrap","%s, %s"%(SC,PA)),("state machine over tokens",PA),("event fold",LO)],
 ["every public function, under overflow and debug assertions, in a monitored process"]),
p("P04","The events form well-formed YAML streams",
 "The events of any input are a prefix of the event grammar: one stream start, then documents each with exactly one root node, collections properly nested and closed, mappings alternating complete keys and values, one stream end and nothing after it. If parsing does not end in an error the sequence is complete.",
 ["inputs"],"every text, accepted or rejected, and every point at which an error can cut the stream",
 "Tests compare a few fixed event lists; balance must hold for every interleaving of block, flow, compact, empty and explicit constructs.",
 [PA,SC],
 [("state stack",PA),("indentation stack and implied collection ends",SC)],
 ["online monitor fed by the parser's iterator"],
 [("states","enclosing parser states",PA),("indents","open block collections",SC)]),
p("P05","Every interface reports the same events",
 "Iterating, next_event, any interleaving of peek with them, loading events into a receiver (with or without spans, all documents at once or one at a time), the stored-parser iterator, and parsing over a user-supplied source all deliver the same events with the same spans and the same error as the plain iterator. peek never changes what follows, and keep_tags only affects tag handle resolution.",
 ["inputs","histories"],"every text and every sequence of peek/next/load calls on it",
 "Tests use one interface each; a divergence needs a particular call order on a particular input (a short look-ahead, an error after a peek, a document boundary).",
 [PA,PI,SO,PR],
 [("one cached event shared by peek, next and load",PA),("ParserIter adaptor",PI),("Source trait and its string implementation",SO)],
 ["event, span and error sequences of each interface"],
 [("current","the event peeked but not taken",PA)]),
p("P06","Spans point at the text they describe",
 "Every marker's byte offset lies in the input on a character boundary and its 1-based line and 1-based byte column are those of that offset (LF, CRLF and CR each end a line); every span starts no later than it ends and starts never move backwards (collection ends apart). Scalars in flow styles, aliases and flow collections start exactly at the first character of their content, plain scalars and aliases end exactly after their last; error markers lie inside the input or at its end.",
 ["inputs"],"every accepted text for events, every text for errors; any line-break style, indentation, multi-byte character and multi-line scalar",
 "The tests check a handful of positions; a column or offset that drifts after a fold, a multi-byte character or a CRLF is invisible to event comparisons.",
 [SC,PA,SO],
 [("mark advanced together with the source",SC),("span construction per event",PA)],
 ["Span of every event and Marker of every error"],
 [("mark","offset, line and column of the next byte",SC)]),
p("P07","Anchors and aliases resolve as the specification says",
 "Every alias refers to the nearest preceding node in the same document with that anchor name (a redefinition replaces the earlier one for what follows), anchored nodes get non-zero ids distinct within the stream, unanchored ones zero, and the anchor's name can be looked up by its id. An alias to a name not yet anchored in its document is an error.",
 ["inputs","histories"],"every stream, anchor placement (keys, values, collections, empty nodes, before or after tags, on separate lines), redefinition and number of documents",
 "Tests have a few one-document anchors; scoping across documents and redefinitions needs sequences of definitions and uses.",
 [PA,LO,SC],
 [("anchor table per document",PA),("anchor scanning",SC)],
 ["anchor ids in events, Parser::get_anchor, loaded values of aliases"],
 [("anchors","name to id table of the current document",PA),("anchor_id_count","next id",PA)]),
p("P08","Tags and directives resolve as the specification says",
 "Every node carries exactly the tag written on it: shorthands expand through the primary, secondary or %TAG-declared handle, percent escapes decode to UTF-8 text, verbatim tags are kept, untagged nodes have none. %TAG handles apply to the following document only (unless keep_tags is set, in which case they persist until redeclared), undeclared handles, duplicate or malformed directives are errors, and reserved directives are ignored.",
 ["inputs","configurations"],"every tag shape, handle, prefix, escape, node kind and sequence of directives and documents, with keep_tags on and off",
 "Tests cover a few tags on scalars; handle scoping, escapes and combinations with anchors need generated streams.",
 [PA,SC],
 [("tag resolution against the document's %TAG table",PA),("tag and directive scanning with percent decoding",SC)],
 ["tag of every event; verdict"],
 [("tags","handle to prefix table",PA)]),
p("P09","Structure of every well-formed document is parsed faithfully",
 "For every well-formed YAML 1.2 stream the parser succeeds and its events describe exactly the nodes written: same nesting, order, collection kinds, empty nodes, documents and explicit-start flags, in block, flow, compact, explicit-key and mixed notation at any indentation.",
 ["inputs","configurations"],"every well-formed stream: every tree of nodes in every presentation the specification allows",
 "The test suite samples about 350 documents; combinations (a compact map in a sequence with an anchored empty key after a multi-line flow sequence, ...) are endless.",
 [SC,PA],
 [("indentation stack, simple keys, flow level",SC),("block and flow state machine",PA)],
 ["events of the parser against the model that was rendered and against an independent reference parser"],
 [("indents / flow_level / simple_keys","where in the structure the scanner is",SC)]),
p("P10","Scalar content is exact in every style",
 "Every well-formed scalar is reported with exactly the characters it denotes and the style it was written in: line folding, escapes (all of them, incl. \\x \\u \\U and escaped breaks), doubled single quotes, literal and folded block scalars with every chomping and indentation indicator, leading blank and more-indented lines, and content at the end of the input.",
 ["inputs","configurations"],"every string and every way to present it in each style, in block and flow context, as key, value, item or root",
 "Tests have a few dozen literals; folding and chomping rules interact with indentation, blank lines and context.",
 [SC,UT,PA],
 [("plain, quoted and block scalar scanners",SC),("hex digit helpers",UT)],
 ["value and style of every scalar event, against the string that was presented"]),
p("P11","Scalars resolve by the core schema",
 "An untagged plain scalar resolves to null, boolean, integer, float or string exactly by the YAML 1.2 core schema (incl. octal, hex, .inf, .nan, signs, exponents, 64-bit limits); quoted and block scalars are strings. Core-schema tags force their type for every spelling the schema gives it and yield a bad value for any other text; decimal integers beyond 64 bits become floats, and parsing a typed scalar directly, in a borrowed or owned tree or through the loader gives the same result.",
 ["inputs"],"every scalar text, style and core tag",
 "Tests try a dozen literals; near-misses (one character away from a number or keyword, values at 64-bit limits) are unbounded.",
 [SCAL,LO,YA,YO],
 [("parse_from_cow and friends",SCAL),("representation to value in the loader",LO)],
 ["Scalar / Yaml / YamlOwned values of scalars"]),
p("P12","Loaded trees are exactly what the events say",
 "Loading a stream yields one tree per document equal to a straightforward fold of its events: sequences and mappings with all items and pairs in order, keys with their values, aliases replaced by copies of the anchored node, tags applied, scalars resolved. Borrowed, owned and custom node types, loading from a string, a parser or a source, and all-documents, first-document and one-by-one loading agree, and node positions passed to a custom tree are those of its events.",
 ["inputs","histories"],"every stream: any nesting, alias placement (keys, nested, redefined, recursive), tags and number of documents",
 "Tests load small documents and look at a few fields; dropped or shifted pairs show only with particular key/value/alias/tag combinations.",
 [LO,YA,YD,YO,YS,PR],
 [("document stack and key stack of the loader",LO),("anchor map of the loader",LO),("node constructors","%s, %s"%(YA,YO))],
 ["Yaml::load_from, YamlOwned, load_single, YamlLoader over custom nodes"],
 [("doc_stack / key_stack","open nodes and pending keys",LO)]),
p("P13","Documents of a stream do not affect each other",
 "The events of each document of a stream are those of the same document parsed alone (anchor numbering shifted), whatever documents, directives, anchors or end markers surround it. A syntax error in a later document leaves every event delivered for the earlier ones as it was.",
 ["inputs","histories"],"every sequence of documents joined by explicit starts, end markers or both, and every broken continuation",
 "Tests hold few multi-document streams; leakage needs state left by one particular document to matter to the next.",
 [PA,SC],
 [("reset of anchors, tags, indentation and keys between documents","%s, %s"%(PA,SC)),("document marker detection",SC)],
 ["events per document, alone and in context"],
 [("anchors / tags","per-document tables",PA)]),
p("P14","Presentation details do not change content",
 "Line-break style (LF, CRLF, CR), a byte order mark, comments, blank lines, trailing end markers, indentation width, flow or block notation and quoting style do not change the content parsed. Two presentations of the same data give the same nodes, and the same text with other line breaks gives the same events and the same verdict, well-formed or not.",
 ["inputs","configurations"],"every document and every pair of equivalent presentations of it, and hostile text under line-break changes",
 "Tests fix one presentation per document; CR and CRLF handling is spread over every scanning loop.",
 [SC,SO,PA],
 [("break and blank classification",SO),("comment, blank line and indentation skipping",SC)],
 ["events of two presentations compared"]),
p("P15","Ill-formed input is rejected",
 "Text the YAML 1.2 specification does not allow (no matter where: unbalanced or mixed brackets, stray indicators, bad indentation, undefined aliases or handles, invalid escapes, duplicated properties or directives, misplaced documents markers, unterminated scalars) yields an error rather than a silently different document. Allowed leniencies: blank lines with tabs in place of indentation, under-indented continuation lines of flow collections and quoted scalars, a block collection on the line of a ':' without a key, underscores in tag handles.",
 ["inputs"],"every ill-formed text: hostile, truncated, mutated or a well-formed document with one ill-formed fragment planted",
 "The test suite has about 90 error cases; acceptance of a bad construct depends on its context.",
 [SC,PA],
 [("scanner and parser errors","%s, %s"%(SC,PA)),("required indentation and simple-key validity",SC)],
 ["verdict of the parser and loader against an independent reference parser"]),
p("P16","Deserialization yields the value the document describes",
 "from_str::<T> returns exactly the value the document's events describe under the core schema, for integers of every width, floats, booleans, chars, strings, options, units, sequences, tuples, maps, structs, newtypes and all enum variant forms, in any presentation; unknown fields are ignored with everything in them. A value that does not fit its type, a missing or duplicated field, an alias, a second document, an empty stream or a syntax error anywhere (also after the value) is an error.",
 ["inputs","programs"],"every document and target type of the serde data model, in every presentation",
 "Tests deserialize a few fixed structs; the event cursor must stay in step for every shape, skipped value and failure position.",
 [DE],
 [("deserializer over parser events",DE),("sequence, map and enum access",DE)],
 ["from_str results against the generated value or an independent fold of the events"]),
p("P17","Serialized values read back unchanged",
 "to_pretty_string of a string, char, integer, float, boolean (and, pretty, a none or unit) with any width, indentation or depth setting is a well-formed single document which from_str, the parser and the loader read back as the same value. In particular a string comes back as that very string, whatever it looks like or contains.",
 ["inputs","configurations"],"every string (control characters, breaks, blanks, document markers, number and keyword look-alikes, long text), every number and every formatter setting",
 "Tests serialize a few words; quoting and folding decisions depend on content, column and width.",
 [SE,ES,DE],
 [("escaping and line folding",ES),("formatters",SE)],
 ["serialized text re-read"]),
p("P18","Tree accessors agree with the tree",
 "On every tree (borrowed, owned or spanned; built or loaded) indexing, key and item lookup, typed access, type predicates, iteration, mutation through mutable access, conversion between owned and borrowed and equality/hash all agree with the pairs and items the tree holds: a lookup returns the value of the matching key, exactly when there is one, and mutable access changes that value and nothing else.",
 ["inputs","programs"],"every tree with string, integer, null, boolean, float, tagged and collection keys, duplicates included, and every lookup on it",
 "Tests index two or three small mappings with string keys.",
 [YA,YD,YO,YS,SCAL,"yam-core/src/node/mod.rs"],
 [("index and lookup macros","yam-core/src/node")],
 ["results of accessors against a model of the tree"]),
]
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(root,"w") as f:
    for x in P:
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
