#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

DOM = ("Identities and field names are those the notation can spell: letters, digits, '_' and '-', "
       "starting with a letter or '_', and not the words true or false.")

prop("K01", "Text written under any formatting configuration parses back to the value",
 "For every value and every formatting configuration (any width limit, any choice of which identities are shown), writing the value as text succeeds and parsing that text gives back an equal value, including exact numbers, strings with any characters, byte arrays, and maps keyed by any value. " + DOM + " Unit, the empty tuple and the empty container share the notation `()` and count as the same value.",
 ["inputs", "configurations"],
 "all value trees (every kind, any nesting, any payload) x all formatting configurations (5 identity flags x width limit none/0..65535)",
 "The layout of each node depends on the kinds, sizes and representations of all its ancestors and on a width budget; tests sample a few trees at the default width, while ambiguities arise from particular combinations of kind, payload, nesting and width.",
 ["src/fmt/mod.rs", "src/fmt/solver.rs", "src/fmt/seqs.rs", "src/fmt/maps.rs", "src/fmt/cntr.rs", "src/fmt/tuples.rs", "src/fmt/prims.rs", "src/parse/mod.rs", "src/parse/heuristics.rs"],
 [("Fmt per node", "whether the identity is written and which of inline/concise/verbose is used", "src/fmt/mod.rs Fmt"), ("text", "the written document", "return value of as_str_with_config")],
 [("as_str_with_config", "src/fmt/mod.rs"), ("parse", "src/parse/mod.rs")],
 ["Kserd::as_str_with_config", "kserd::parse::parse"])

prop("K02", "Text written from any manual formatter state parses back to the value",
 "For every value and every sequence of formatter requests (inline, concise, verbose, identity on/off, configuration applied part-way), writing the value in the resulting state does not crash and the text parses back to an equal value, with the same exclusions as for configurations: identities and field names are ones the notation can spell, and unit, empty tuple and empty container count as the same value.",
 ["inputs", "histories"],
 "all value trees x all finite request sequences on the formatter",
 "The number of reachable per-node representation assignments is exponential in the tree size and includes states the automatic layout never produces.",
 ["src/fmt/formatter.rs", "src/fmt/mod.rs", "src/fmt/maps.rs", "src/fmt/seqs.rs", "src/fmt/cntr.rs", "src/parse/mod.rs", "src/parse/cntr.rs"],
 [("formatter state", "one (identity shown, representation) pair per node", "src/fmt/formatter.rs Formatter.fmts")],
 [("Formatter::inline/concise/verbose/id", "src/fmt/formatter.rs"), ("Formatter::write_string", "src/fmt/formatter.rs")],
 ["Formatter::write_string", "kserd::parse::parse"])

prop("K03", "Identities that are written survive the round trip on the right nodes",
 "Parsing written text gives every node exactly the identity the formatter was told to write for it, and no identity for nodes whose identity display is off or absent: no identity moves to another node, is invented, or is lost. " + DOM + " The unit value always shows its identity and then reads back as an empty tuple of that identity.",
 ["inputs", "configurations", "histories"],
 "all value trees with identities on any subset of nodes x all reachable formatter states and configurations",
 "Equality in this crate ignores identities, so the existing round-trip style tests cannot see a lost or moved identity at all.",
 ["src/fmt/mod.rs", "src/fmt/prims.rs", "src/fmt/tuples.rs", "src/fmt/cntr.rs", "src/fmt/seqs.rs", "src/fmt/maps.rs", "src/parse/mod.rs", "src/parse/cntr.rs"],
 [("id flag per node", "whether the identity is written", "src/fmt/mod.rs Fmt.id")],
 [("maybe_write_nonprim_ident / ident header and row parsing", "src/fmt/mod.rs, src/parse/cntr.rs")],
 ["Formatter::write_string", "kserd::parse::parse", "Kserd::id"])

prop("K04", "Written text is exactly the layout its representations prescribe",
 "For every value and formatter state the text is exactly the one the notation prescribes: inline nodes on one line with ', ' separators; concise nodes one element per line, indented four columns past their start; verbose containers one field per line with `:id` rows, `[name]`, `[[name]]` headers, each nesting level indented four columns. Numbers print their decimal text, strings verbatim between a delimiter that does not occur in them, byte arrays as base-91 text; `write_string` appends to the buffer it is given and changes nothing before it.",
 ["inputs", "histories"],
 "all value trees x all reachable formatter states x any initial buffer content",
 "Text is a product of each node's kind, representation, column and position (field, element, key, value); tests pin a dozen documents.",
 ["src/fmt/mod.rs", "src/fmt/prims.rs", "src/fmt/tuples.rs", "src/fmt/cntr.rs", "src/fmt/seqs.rs", "src/fmt/maps.rs"],
 [("column", "indentation passed down while writing", "src/fmt/*.rs col argument")],
 [("write", "src/fmt/mod.rs")],
 ["Formatter::write_string", "Kserd::as_str"])

prop("K05", "A formatting configuration fixes identity display and representations",
 "Applying a configuration turns identity display on or off for each node purely by its kind (primitive, tuple, container, sequence, map) and picks representations outermost first: with no width limit everything is inline; otherwise each node takes the least expanded representation whose estimated width, at the column it would start in, fits the limit, never more expanded than its parent and its kind allow. The result depends only on the value and the configuration, not on earlier formatter requests about identities. The default configuration shows identities on tuples and containers only and limits the width to 60.",
 ["inputs", "configurations", "histories"],
 "all value trees x all configurations x prior request histories",
 "The choice at a node depends on widths of whole subtrees and offsets of ancestors; off-by-one widths only show at exact boundary limits.",
 ["src/fmt/solver.rs", "src/fmt/formatter.rs", "src/fmt/mod.rs"],
 [("inline/concise widths", "estimated width of each subtree", "src/fmt/solver.rs"), ("offset", "column a node starts in", "src/fmt/solver.rs calculate_offset")],
 [("Formatter::apply_config", "src/fmt/solver.rs")],
 ["Formatter::apply_config then Formatter::fmts"])

prop("K06", "Formatter requests accept exactly the legal representation changes",
 "After any sequence of requests, no node is in a more expanded representation than its parent, than its kind allows (primitives and empty compounds inline, tuples at most concise), than concise for map keys and for sequences and maps that are not a field of a container. A request that keeps these rules succeeds, sets exactly that node and lowers only descendants that would exceed it; any other request fails with the error naming the rule and changes nothing, and identity toggles change only that node's display flag.",
 ["inputs", "histories"],
 "all value trees x all finite request sequences, including out-of-range indices",
 "The legal moves form a large state graph per tree; tests follow a few hand-written paths.",
 ["src/fmt/formatter.rs"],
 [("Formatter.fmts", "identity flag and representation per node", "src/fmt/formatter.rs"), ("parents/bounds", "tree structure used for caps", "src/fmt/formatter.rs")],
 [("Formatter::new", "src/fmt/formatter.rs"), ("request_repr_alteration", "src/fmt/formatter.rs")],
 ["Formatter::{new,inline,concise,verbose,id,fmts} return values and fmts()"])

prop("K07", "Parsing any text terminates with a value or a located error",
 "For every input string the parser returns, without crashing, either a value or an error whose traces are non-empty, and each trace names a line and column that lie inside the input (counted from one; zero for empty input) together with the text of that line. Time stays polynomial in the input length for bounded nesting.",
 ["inputs"],
 "all UTF-8 strings (bounded nesting depth), including truncations and corruptions of valid documents",
 "The input space is unbounded and the grammar is backtracking; tests check a few malformed documents.",
 ["src/parse/mod.rs", "src/parse/err.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/list.rs", "src/parse/prims.rs"],
 [("Error", "stack of located traces", "src/parse/err.rs")],
 [("parse", "src/parse/mod.rs"), ("Error::new", "src/parse/err.rs")],
 ["kserd::parse::parse", "parse::Error::{iter,get,len,is_empty,backtrace}"])

prop("K08", "Equivalent notations of one value parse to the same value",
 "However a value is legally written - inline, concise or verbose at each level, with extra spaces or tabs around separators, blank lines between fields, tabs or four spaces as an indent, the elements of multi-line lists one per line, LF or CRLF line ends, strings quoted or behind `str` and any delimiter that is not a letter, digit, blank, '-', '_', '=' or opening bracket, identities shown or omitted - parsing yields the same value, with the identities that were written.",
 ["inputs"],
 "all value trees x all combinations of notation choices per node",
 "Freedom of notation multiplies per node; the formatter itself only ever produces one of the many spellings, so round-trip tests never exercise the rest.",
 ["src/parse/mod.rs", "src/parse/heuristics.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/list.rs", "src/parse/prims.rs"],
 [("indent level", "depth of verbose nesting while parsing", "src/parse/cntr.rs verbose(indents)")],
 [("kserd_nested/kserd_concise/kserd_inline", "src/parse/mod.rs")],
 ["kserd::parse::parse"])

prop("K09", "The parser accepts exactly the documented language",
 "For every text, parsing succeeds exactly when the text is a document of the notation and then returns the value the notation assigns to it (repeated field names: the last one wins and repeated `[[name]]` blocks accumulate in order; repeated map keys: last one wins); text outside the language - unbalanced or mismatched brackets, missing separators or closers, mis-indented verbose fields, unterminated strings, malformed identities, trailing content - is rejected rather than silently read as something else.",
 ["inputs"],
 "all texts over the notation's alphabet",
 "Tests contain a few dozen accepted and rejected documents; wrong acceptance and wrong association only show for particular token sequences.",
 ["src/parse/mod.rs", "src/parse/heuristics.rs", "src/parse/cntr.rs", "src/parse/map.rs", "src/parse/list.rs", "src/parse/prims.rs"],
 [("position", "remaining input", "src/parse")],
 [("parse", "src/parse/mod.rs"), ("pattern_match_delimited / pattern_match_verbose", "src/parse/heuristics.rs")],
 ["kserd::parse::parse"])

prop("K10", "Number equality, ordering and hashing agree with the exact number line",
 "Numbers compare by their exact mathematical value regardless of whether they are held as unsigned, signed or floating point: -inf, the finite reals, +inf, then NaN, with all zeros equal and all NaNs equal. Equality is exactly 'compares equal', ordering is total (antisymmetric and transitive), and equal numbers hash equally.",
 ["inputs"],
 "all pairs and triples of numbers over u128, i128 and f64, every bit pattern",
 "Violations sit at precision boundaries (2^53, 2^63, 2^64, 2^127, 2^128), signed zeros, NaN payloads and cross-type pairs, which sampling misses; law violations corrupt maps keyed by numbers.",
 ["src/ds/num.rs"],
 [("Number", "Uint(u128) | Int(i128) | Float(f64)", "src/ds/num.rs")],
 [("PartialEq/Ord/Hash for Number", "src/ds/num.rs")],
 ["Number ==, cmp, partial_cmp, hash"])

prop("K11", "Number conversions are exact or refused",
 "Converting a number to an unsigned or signed integer returns exactly the integer it holds - for floating point, the integer within 1e-10 of it - when the number and that integer both lie in the target's range, and an error otherwise (a negative float is never converted to an unsigned integer); conversion to floating point returns the nearest double. Building a number from any primitive keeps its value (an f32 keeps its shortest decimal reading).",
 ["inputs"],
 "all numbers over u128, i128 and f64, and all primitive integers and f32",
 "Range ends and tolerance edges are isolated points in a 2^128 domain.",
 ["src/ds/num.rs"],
 [("Number", "Uint(u128) | Int(i128) | Float(f64)", "src/ds/num.rs")],
 [("as_u128/as_i128/as_f64, From<prim>", "src/ds/num.rs")],
 ["Number::as_u128", "Number::as_i128", "Number::as_f64", "Number::from", "Value::uint/int/float"])

prop("K12", "Number text is lossless and number syntax is exact",
 "Printing any number and reading the text back gives an equal number, whether read on its own or inside a document. Text of an optional minus and digits (underscores allowed) within 128 bits reads as exactly that integer, decimal and exponent text reads as the nearest double, and text that is not a number is an error.",
 ["inputs"],
 "all numbers over u128, i128 and f64; all texts over the number alphabet",
 "Loss happens for particular magnitudes (integral doubles beyond 2^53, subnormals, extreme integers) and odd spellings only.",
 ["src/ds/num.rs", "src/parse/prims.rs"],
 [("Number", "Uint(u128) | Int(i128) | Float(f64)", "src/ds/num.rs")],
 [("Display/FromStr for Number", "src/ds/num.rs"), ("num", "src/parse/prims.rs")],
 ["Number::to_string", "str::parse::<Number>", "kserd::parse::parse"])

prop("K13", "Values compare by content only, with lawful equality and order",
 "Equality of values ignores identities and whether data is borrowed or owned, and otherwise holds exactly when kind and contents agree (an empty tuple equals an empty container). The ordering is a total order consistent with equality: by kind, then lexicographically by contents, so maps keyed by any values find every key they hold under any equal key.",
 ["inputs"],
 "all pairs and triples of value trees, and map lookups with any equal key",
 "Order laws quantify over triples of recursive values mixing kinds, number representations and identities.",
 ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs"],
 [("Value", "tagged tree", "src/ds/val.rs")],
 [("PartialEq/Ord for Kserd and Value", "src/ds/kserd.rs, src/ds/val.rs")],
 ["Kserd ==, cmp", "Value::new_map, BTreeMap lookup"])

prop("K14", "Decoding an encoded value returns the original",
 "For every serializable value of the supported data model (all integer widths, floats, chars, strings, bytes, options, tuples, sequences, maps, structs, every enum variant kind, any nesting), encoding it and decoding the result as the same type returns an equal value; the same holds when decoding from a borrowed or an owned copy of the encoded form.",
 ["inputs", "programs"],
 "all types built from the serde data model x all their values",
 "Types compose without bound; each combination (options in maps, enums in tuples, extreme integers) takes a different path through encoder and decoder.",
 ["src/encode/mod.rs", "src/encode/encoder.rs", "src/encode/decoder.rs"],
 [("encoded tree", "the value produced by the encoder", "src/encode/encoder.rs")],
 [("Encoder", "src/encode/encoder.rs"), ("Decoder", "src/encode/decoder.rs")],
 ["Kserd::enc", "Kserd::decode"])

prop("K15", "Encode, write, parse, decode returns the original",
 "For every supported value, encoding it, writing it as text under a configuration that keeps identities on tuples and containers, parsing the text and decoding as the same type returns an equal value.",
 ["inputs", "programs", "configurations"],
 "all types of the serde data model x their values x all width limits and remaining identity flags",
 "It composes four components over unbounded types, values and widths.",
 ["src/encode/encoder.rs", "src/encode/decoder.rs", "src/fmt/mod.rs", "src/fmt/solver.rs", "src/parse/mod.rs"],
 [("text", "the written document", "as_str_with_config")],
 [("enc, as_str_with_config, parse, decode", "src/encode/mod.rs, src/fmt/mod.rs, src/parse/mod.rs")],
 ["Kserd::enc", "Kserd::as_str_with_config", "kserd::parse::parse", "Kserd::decode"])

prop("K16", "Decoding yields the described value or an error, never a wrong value",
 "Decoding any value as any type either returns the one value the shape mapping assigns or an error: out-of-range or fractional numbers, wrong kinds, wrong tuple lengths for enum variants, unknown variants, missing fields, multi-character chars and owned text for borrowed types are errors; extra struct fields are ignored; an absent option comes only from the empty tuple named None, from unit, or from a missing optional field. It never panics.",
 ["inputs", "programs"],
 "all value trees x all target types",
 "The failure space is the product of every kind with every target type and every near miss.",
 ["src/encode/decoder.rs"],
 [("value being decoded", "tree with identities", "src/encode/decoder.rs Decoder")],
 [("Decoder::deserialize_*", "src/encode/decoder.rs")],
 ["Kserd::decode"])

prop("K17", "Encoding produces the documented tree for every data shape",
 "Encoding maps each data shape to one tree: structs to containers named after the type with one entry per field, tuples and tuple structs to tuples, newtypes to one-element tuples, sequences to sequences, maps to maps, unit structs and variants to empty named tuples, variants named after the variant, options to tuples named Some or None, primitives named after their type. Names that are not legal identities are refused with an error instead of being encoded.",
 ["inputs", "programs"],
 "all types of the serde data model x their values",
 "The tree, including identities at every level, is invisible to equality-based tests because equality ignores identities.",
 ["src/encode/encoder.rs"],
 [("encoded tree", "kinds, identities and children", "src/encode/encoder.rs")],
 [("Encoder::serialize_*", "src/encode/encoder.rs")],
 ["Kserd::enc"])

prop("K18", "The navigator's links describe exactly the value it was built from",
 "For every value, the navigator holds one node per subvalue, numbered in depth-first order with each map key just before its value; every node's parent, children, keys, position in its parent, key flag, field name and underlying subvalue are exactly those of the tree, out-of-range lookups return nothing, nodes are equal exactly when they are the same node of the same navigator, and child iterators report their remaining length correctly as they are consumed.",
 ["inputs"],
 "all value trees, all nodes, all iteration prefixes",
 "Link arithmetic depends on the sizes of preceding subtrees and on keys; tests navigate two fixed trees.",
 ["src/nav/mod.rs", "src/nav/navigator.rs", "src/nav/node.rs", "src/nav/value.rs"],
 [("flattened node list", "parent, key flag and child indices", "src/nav")],
 [("Navigator::new", "src/nav/mod.rs"), ("Node accessors and child iterators", "src/nav")],
 ["Navigator::{new,get,root,len,nodes}", "Node::{parent,value_children,key_children,is_key,idx_in_parent,kserd}"])

prop("K19", "Descendant traversals visit every descendant once in the stated order",
 "From any node, the depth-first and breadth-first descendant traversals visit each proper descendant (keys included) exactly once and nothing else: depth-first lists every node before its own descendants with each key (and its descendants) before its value, breadth-first lists nodes level by level.",
 ["inputs"],
 "all value trees x all start nodes",
 "Order and completeness depend on how subtrees nest under keys and values; tests walk one or two trees from the root.",
 ["src/nav/mod.rs", "src/nav/navigator.rs", "src/nav/node.rs", "src/nav/value.rs"],
 [("traversal queue", "nodes still to visit", "src/nav")],
 [("descendants_depth/descendants_breadth", "src/nav")],
 ["Node::descendants_depth", "Node::descendants_breadth"])

prop("K20", "Identities and field names are validated exactly",
 "Giving a value an identity succeeds for every text free of brackets, spaces, commas, dots, slashes and equals signs and fails for every other text, handing nothing out on failure; building a container succeeds exactly when every field name is non-empty, does not start with a digit and contains no space, slash, quote or tab. Accepted names and identities are stored unchanged and are found again by lookup.",
 ["inputs"],
 "all identity strings and all lists of field names (any characters, positions, duplicates)",
 "The rule must hold for every character at every position; tests try a few characters.",
 ["src/ds/kserd.rs", "src/ds/val.rs"],
 [("id", "optional identity", "src/ds/kserd.rs"), ("container", "name to value map", "src/ds/val.rs")],
 [("Kserd::with_id", "src/ds/kserd.rs"), ("Value::new_cntr/Kserd::new_cntr", "src/ds/val.rs, src/ds/kserd.rs")],
 ["Kserd::with_id", "Kserd::id", "Kserd::new_cntr", "Value::get"])

prop("K21", "Owned, borrowed and cloned copies are identical and independent",
 "Cloning a value, making an owned copy, or making a borrowed view yields a value with the same contents, the same kinds and the same identities at every level; later changes to a clone or owned copy never affect the original and vice versa.",
 ["inputs", "histories"],
 "all value trees x all sequences of copy, edit and view operations on a set of values",
 "A copy that drops an identity or one nested level is still equal under identity-blind equality, and aliasing shows only after an edit following a copy.",
 ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs"],
 [("store of values", "values alive at the same time", "caller")],
 [("Clone, into_owned, mk_brw", "src/ds")],
 ["Kserd::clone", "Kserd::into_owned", "Kserd::mk_brw"])

prop("K22", "Typed access returns exactly what is stored and edits change only their target",
 "A typed accessor (unit, bool, char, unsigned, signed, float, text, bytes, tuple, sequence, container, map, and lookups by field name) returns the stored content exactly when the value is of that kind and holds such content, and nothing otherwise, leaving the value unchanged. Writing through a mutable accessor changes exactly that place and is visible to every later read, in any order of edits.",
 ["inputs", "histories"],
 "all value trees x all accessors x all sequences of edits at any path",
 "Accessors are a 20 by 9 matrix over kinds and edits compose; tests touch each accessor once.",
 ["src/ds/val.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs"],
 [("value tree", "current contents", "src/ds/val.rs")],
 [("Value::{unit,bool,ch,uint,...} and *_mut", "src/ds/val.rs"), ("Accessor::get_*", "src/ds/val.rs")],
 ["Value accessors", "Accessor for containers"])

prop("K23", "Direct conversion of standard types produces the documented tree",
 "Converting standard values directly (primitives, strings, tuples, arrays, vectors, boxes, options, results, nested in any way) gives the tree of the same content in the same order, with the documented identities: type name for primitives, `array` and `Vec` for lists, `None` for an absent option, `Ok`/`Err` one-element tuples for results, and boxes and present options transparent; if any part refuses conversion the whole conversion fails. The constructors attach the same documented identities and nothing else.",
 ["inputs", "programs"],
 "all values of the listed standard types and their nestings",
 "Identity and nesting are invisible to identity-blind equality; arity-specific conversions (1 to 12, 1 to 32) are generated code tested for a few sizes.",
 ["src/to_kserd.rs"],
 [("result tree", "converted value", "src/to_kserd.rs")],
 [("ToKserd impls", "src/to_kserd.rs")],
 ["ToKserd::into_kserd"])

prop("K24", "The report of a parse error shows exactly its traces",
 "The backtrace of a parse error lists its traces in order, innermost first: number from zero, line, column and message, the text of the line, and a caret below the column, with a blank line between traces; the debug form is the same text, and a single trace shows the same three lines without the number. No outer trace lies after an inner one. A message about an expected character names one that is not there: it shows the character found at the trace's place, or says that the line has ended exactly when it has.",
 ["inputs"],
 "all texts the parser refuses, of any nesting, line ends and character widths",
 "The messages slice the line at a byte column; wide characters, line ends and nested traces combine, and tests look at a few fixed reports.",
 ["src/parse/err.rs", "src/parse/mod.rs"],
 [("traces", "error hierarchy with offsets", "src/parse/mod.rs")],
 [("Error::{get,iter,backtrace}", "src/parse/err.rs"), ("Display for Trace", "src/parse/err.rs")],
 ["parse::parse", "parse::Error::backtrace", "parse::Trace"])

prop("K25", "Borrowed and owned text and bytes are interchangeable",
 "A text or byte holder (Kstr, Barr) behaves as its content alone, however it was made and whether it borrows or owns: it compares, orders and hashes as the plain content does, equals plain content exactly when they are the same, shows itself as the content, and finds the same entries in maps. Clones, owned copies and edits through mutable access change no other holder, and the source a holder was borrowed from never changes.",
 ["inputs", "histories"],
 "all contents x all sequences of borrowing, owning, cloning and editing several holders",
 "A holder that compares or hashes by form only shows once both forms of one content meet, and aliasing only after an edit following a copy.",
 ["src/ds/kstr.rs", "src/ds/barr.rs"],
 [("holders", "contents alive at the same time", "caller")],
 [("Kstr::{brwed,owned,to_mut,into_owned}", "src/ds/kstr.rs"), ("Barr::{brwed,owned,to_mut,into_owned}", "src/ds/barr.rs")],
 ["Kstr", "Barr"])

prop("K26", "The debug form spells the whole value",
 "The debug form of a value names its identity (or None), its kind and its contents, recursively and in order: unit, bool, number with the form that holds it, quoted text, byte list, `Tuple(..)`, `Cntr { name: .. }`, `[..]`, `{key: value}`; a navigator's node shows its identity, kind (and content if it is a primitive), index, parent, key flag and position. The alternate form has the same parts, one per line, indented four columns per level. Different values have different debug forms.",
 ["inputs"],
 "all values x both debug forms",
 "Debug output is what assertions and logs show; a part left out there is seen only when two values differ in that part alone.",
 ["src/ds/kserd.rs", "src/ds/val.rs", "src/nav/node.rs"],
 [("subvalues", "identity, kind and contents of each", "src/ds/kserd.rs")],
 [("Debug for Kserd", "src/ds/kserd.rs"), ("Debug for Value", "src/ds/val.rs"), ("Debug for Node", "src/nav/node.rs")],
 ["Debug for Kserd", "Debug for Value", "Debug for Node"])
prop("K27", "A refusal says exactly why",
 "Every refusal displays its reason: a refused identity is quoted with the list of illegal characters, however the identity came (constructor, conversion, encoding, at any depth); a refused field name is empty, begins with a digit, or is quoted with its first illegal character; a refused formatter request tells an index out of range, an inline or concise parent, a sequence or map at the root, or the requested and the highest possible representation; decoding a value of the wrong kind names the kind found (with its content for booleans, text and numbers of 64 bits) and the type expected, a wrong number of tuple elements the number found and expected, an enum without identity that it has none; a map value without a key, text that is no number and a number that is no integer say so; custom errors are passed on verbatim. What is accepted says nothing.",
 ["inputs"],
 "all refused constructions, conversions, encodings, decodings and requests x reasons",
 "Messages are built far from where the refusal is decided and often untested; a swapped or default part misleads the user without any visible failure.",
 ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/num.rs", "src/to_kserd.rs", "src/fmt/formatter.rs", "src/encode/encoder.rs", "src/encode/decoder.rs"],
 [("refusal", "kind, refused content, expectation", "src/encode/decoder.rs")],
 [("Kserd::with_id", "src/ds/kserd.rs"), ("Value::new_cntr", "src/ds/val.rs"), ("Formatter::inline / concise / verbose / id", "src/fmt/formatter.rs"), ("Kserd::enc", "src/encode/mod.rs"), ("Kserd::decode", "src/encode/mod.rs"), ("ToKserd::into_kserd", "src/to_kserd.rs"), ("Number::from_str", "src/ds/num.rs")],
 ["InvalidId", "InvalidFieldName", "FmtError", "ToKserdErr", "encoder Error", "decoder Error", "IntoIntError", "IntoNumberErr"])
prop("K28", "Text and bytes are borrowed and moved as documented",
 "Every text and byte array of a value, identities and field names included, is held as the way it came about says: constructors and conversions borrow from references and take over owned text without copying; a clone keeps borrowed data borrowed from the same place and copies owned data; making a value owned leaves nothing borrowed; a borrowed view owns nothing and refers to the very data of the original; values put into lists and tuples are moved; reading text borrows every text, identity and name from it and owns byte arrays; encoding yields owned text and bytes; decoding hands owned text and bytes over and borrowed ones on as references to the same data. No data has two owners.",
 ["histories"],
 "values with owned and borrowed texts x sequences of copying, lending, moving, reading, encoding, decoding",
 "Ownership decides which types can be decoded (borrowed types need borrowed data) and what a large document costs; contents stay equal when it is wrong, so nothing else notices.",
 ["src/ds/kserd.rs", "src/ds/val.rs", "src/ds/kstr.rs", "src/ds/barr.rs", "src/to_kserd.rs", "src/parse/prims.rs", "src/parse/names.rs", "src/encode/encoder.rs", "src/encode/decoder.rs"],
 [("Kstr.inner / Barr.inner", "borrowed or owned, and where", "src/ds/kstr.rs")],
 [("Kserd::mk_brw / into_owned / clone", "src/ds/kserd.rs"), ("ToKserd::into_kserd", "src/to_kserd.rs"), ("parse", "src/parse/mod.rs"), ("Kserd::enc", "src/encode/mod.rs"), ("Decoder", "src/encode/decoder.rs")],
 ["Kstr", "Barr", "Kserd::mk_brw", "Kserd::into_owned", "Decoder", "Encoder"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
