ABS = "abstract interpretation (path-sensitive dataflow over SSA)"

prop("C01", "A failed decoder stays failed and inert",
 "Once a decoder (of either engine) has recorded an error that ends decoding, every further call on it returns its zero value (an empty collection state for sequences and mappings, false for null tests), moves nothing, touches no node, and leaves the error in place: the first error is what Error() keeps returning, later AddError calls never replace it, and adding a nil error changes nothing. Every error recorded before is reported by Error(). Collections opened before the failure report no unprocessed items afterwards, so loops over them end.",
 ["histories", "inputs"], "every call sequence after every first error, on every document",
 "Tests call a few methods after one error; the guarantee quantifies over all methods, positions and open collections.",
 ["decode.go", "engines/yayamls/decode/reader.go", "engines/goyaml/decode/reader.go", "engines/yayamls/decode/iterator.go", "engines/goyaml/decode/iterator.go"],
 [("sticky error test at the start of each read", "engines/*/decode/reader.go"), ("opened iterators emptied when an error is stored", "engines/*/decode/reader.go setFatal/AddError")],
 technique=ABS + " from the 'error stored' abstract state; must-analysis of iterator draining",
 note="Every interface method of every decoder implementation is analysed from the abstract failed state with symbolic contents; sound up to the listed library models (errors.Join/New, fmt.Errorf).")

prop("C02", "Typed reads accept exactly what the schema recognises",
 "A typed read (Integer, Unsigned, Float, Boolean, Timestamp, String, Sequence, Mapping, null test) at any position of a document - root, item, value, nested, behind an anchor, tag or alias - succeeds exactly when the current node is of the required kind and its text is recognised for that type, and then returns that very node's text converted with the requested bit size. Otherwise it returns the zero value and a denial error is recorded, in both error modes; a failing conversion is recorded too, and reading past the end records an error. Asking for null never records an error.",
 ["inputs", "histories"], "every scalar text, node kind, position, alias/anchor/tag wrapping and error mode",
 "Tests sample concrete texts at a few positions; acceptance must hold for every text and every combination of node kind, wrapping and position.",
 ["decode.go", "engines/yayamls/decode/reader.go", "engines/yayamls/decode/expected.go", "engines/goyaml/decode/reader.go", "engines/goyaml/decode/expected.go", "engines/yayamls/schema/schema.go", "engines/goyaml/schema/schema.go"],
 [("expecters decide visit/deny per node kind", "engines/*/decode/expected.go"), ("typed reads convert the visited text", "engines/*/decode/reader.go")],
 technique=ABS + " of each read over abstract documents with symbolic texts, compared with the acceptance contract",
 note="Exhaustive over 14 node forms x 7 positions x 2 error modes x 9 reads per engine, scalar text symbolic; schema predicates and conversions are opaque here (decided under C07).")

prop("C04", "A failed tree builder keeps its first error until Result",
 "Once an insertion into a tree builder (of either engine) has failed - misuse of Start/End, an error handed to InsertRaw or the text variants, raw data that does not parse - no later insertion panics or replaces that error: Result returns the error recorded first and no tree. After Result, successful or not, the builder behaves like a newly made one: no error, position or node of the previous document is left.",
 ["histories"], "every insertion sequence after every first error, and every sequence after Result",
 "Tests exercise a handful of sequences; the guarantee quantifies over all methods after all failures and over reuse.",
 ["encode.go", "engines/yayamls/encode/builder.go", "engines/goyaml/encode/builder.go"],
 [("sticky error in insertions", "engines/*/encode/builder.go"), ("reset in Result", "engines/*/encode/builder.go Result")],
 technique=ABS + " of every Inserter method from every abstract failed builder state; comparison of the abstract state after Result with a new builder",
 note="Finite family of abstract failed states, values symbolic; all Inserter methods, both engines, all options.")

prop("C05", "Builders build exactly the inserted tree or report an error",
 "For every sequence of insertions the Result of a tree builder is the tree the sequence describes: each scalar appears once, at its position, with the text the schema gives for its value (quoted exactly when the quoting option or the value requires it), sequences keep item order, mappings pair keys with the values that follow them, raw and marshalled parts appear as given. A sequence that describes no tree - an End without its Start, a key without a value, a collection left open, a second root - makes Result report an error instead of losing or inventing nodes; nothing panics.",
 ["histories", "inputs"], "every operation sequence (checked up to 6, thorough 7 operations, plus the operations that would finish a failed build) with every inserted value",
 "The number of sequences is exponential and values are unbounded; tests sample a few.",
 ["encode.go", "engines/yayamls/encode/builder.go", "engines/goyaml/encode/builder.go"],
 [("insertNode places a node under the current one", "engines/*/encode/builder.go")],
 technique=ABS + ": composition of the abstract transfer functions of the insertions along all sequences up to the bound, compared with the described tree",
 note="Bounded in the number of operations (6 quick, 7 thorough, plus 2 or 3 after a failure), values symbolic.")

prop("C06", "The encoder forwards every insertion and writes only good trees",
 "An encoder made from a tree builder and a tree writer passes every insertion, exactly once and with its arguments unchanged, to the builder's operation of the same name. Encoding asks the builder for the tree once; if the builder reports an error that error is returned and the writer is not called at all, so nothing reaches the destination; otherwise the tree is handed to the writer once (with the given destination) and the writer's output and error are returned as they are.",
 ["inputs", "fault_sequences"], "every insertion, value, builder and writer, failing or not",
 "The façade is exercised by tests only with succeeding parts.",
 ["encode.go"], [("encoder delegates", "encode.go")],
 technique=ABS + " with builder and writer as symbolic interface values; call effects recorded per path",
 note="All methods of the encoder, all paths.")

prop("C11", "Walking a document visits every leaf once, in document order",
 "Reading a document with the typed reads - opening sequences and mappings and reading as long as the collection state reports unprocessed items - delivers every leaf exactly once, in document order, keys before their values, with aliases delivering the anchored node's content; a collection reports unprocessed items exactly while some remain, a sequence's size is its number of items and a mapping's size is zero exactly when it has no entries; a null test that answers false consumes nothing and one that answers true consumes exactly that node. After the last leaf a further read records an error.",
 ["inputs", "histories"], "every document shape (nesting, siblings, empty collections, properties, aliases) and every interleaving of null tests",
 "Tests use a few documents; the walk must be right for every nesting and for every mixture of null tests.",
 ["decode.go", "engines/yayamls/decode/reader.go", "engines/yayamls/decode/iterator.go", "engines/yayamls/decode/route.go", "engines/goyaml/decode/reader.go", "engines/goyaml/decode/iterator.go"],
 [("route points and iterators", "engines/*/decode/*.go")],
 technique=ABS + ": transfer functions of the reads composed along the document-order walk of a finite family of abstract documents",
 note="Finite family of document shapes up to depth 4, texts symbolic.")

prop("C14", "Skip, Any, Raw and Node take exactly one subtree",
 "At the root, at an item of a sequence and at a value of a mapping, Skip, Any, Raw and Node consume exactly the current subtree, record no error, leave the document unchanged and let the reads that follow deliver every following leaf. Node returns that very node, Raw the serialisation of that node, complete in itself (an alias whose anchor lies outside of the subtree is replaced by the anchored node), Any its value: sequences as []any in order, mappings as map[string]any with every entry (the entries of a mapping merged with the << key included, without replacing earlier ones), null as nil, timestamps as time.Time, unsigned integers as uint64, other integers as int64, floats as float64, booleans as bool, any other scalar as its text; aliases stand for the anchored node, and an alias inside the node it refers to is reported as an error.",
 ["inputs", "histories"], "every document shape and every position in it",
 "Tests sample a few positions; position restoration is only visible in what is read afterwards.",
 ["decode.go", "engines/yayamls/decode/reader.go", "engines/yayamls/decode/any.go", "engines/goyaml/decode/reader.go", "engines/goyaml/decode/any.go"],
 [("any builders", "engines/*/decode/any.go"), ("subtree reads restore the position", "engines/*/decode/reader.go")],
 technique=ABS + ": the subtree operation's transfer function replaces the walk of the subtree at each position of each abstract document",
 note="Finite family of document shapes, texts symbolic; key positions are outside the statement.")

prop("C07", "Schema recognition, conversion and encoding agree",
 "For every text, the schema's Is* predicates recognise exactly the YAML 1.2 core schema's nulls, booleans, (un)signed integers and floats and the supported timestamp forms. Every recognised text is converted by the matching To* function to the value it denotes: decimal with any leading zeros in base 10, 0o in base 8, 0x in base 16, signs kept, infinities and NaN as such, the year, month, day and time read as written, with the requested bit size, and an out-of-range number is an error rather than another value. Every text a From* function writes is recognised as that very type (a float never looks like an integer) and converts back to the value written: no precision, sign, base, fraction of a second or time zone is lost.",
 ["inputs"], "every scalar text and every value",
 "The texts and values are unbounded; tests list a few dozen of them.",
 ["engines/pkg/schema/schema.go"],
 [("regular expressions, bases, layouts and formats of the shared schema", "engines/pkg/schema/schema.go")],
 technique="string analysis: path conditions of the schema functions as regular languages (DFA inclusion and equivalence), conversions by their documented meaning",
 note="All paths of all Is*/To*/From* functions; strconv, math and time by their documented contract; number ranges in timestamps are not modelled.")

prop("C09", "The parser backtracks cleanly",
 "Whatever the tokens, a grammar alternative that is given up leaves no trace: every checkpoint a parse function sets is committed or rolled back exactly once before it returns; after an alternative failed having taken tokens, nothing more is parsed or accepted before the parser is back at the checkpoint; the text collected by the failed alternative is gone from the scalar's buffer before the next alternative writes there; the lexer's raw mode and the caller's indentation are the same after a parse function as before it; and no token's text goes into a scalar twice.",
 ["inputs", "histories"], "every token sequence, through every parse function",
 "Backtracking paths are only taken for particular malformed or unusual inputs; tests reach a few of them, and a leaked checkpoint or leftover text shows only in later tokens.",
 ["engines/yayamls/parser/*.go"],
 [("setCheckpoint/commit/rollback around each alternative", "engines/yayamls/parser/*.go"), ("collected text is truncated on failure", "engines/yayamls/parser/block.go, flow.go")],
 technique="typestate analysis: modular abstract interpretation of every parse function over SSA with fixpoint summaries of its callees",
 note="All parse functions and paths; token contents abstract. The one known violation (a line break taken twice in folded scalars) is listed in known_findings.txt.")

prop("C24", "The parser always makes progress",
 "Whatever the tokens, every loop of the YAML parser takes at least one token (not given back by a rollback) in each round or ends, and no chain of parse functions calls itself before a token is taken, so parsing ends for every input.",
 ["inputs"], "every token sequence",
 "Non-termination needs one particular input; tests only show it is absent for theirs.",
 ["engines/yayamls/parser/*.go"],
 [("repetition loops of the grammar", "engines/yayamls/parser/*.go")],
 technique="modular abstract interpretation (same summaries as C09): progress at every loop head, left-recursion search in the call graph of no-progress calls",
 note="All loops of all parse functions; taking the end-of-input token counts as progress.")

prop("C26", "Checkpoints replay the token stream exactly",
 "For every sequence of Next, SetCheckpoint, Commit, Rollback and SetStream on the checkpointing accessor: Next gives the elements of the stream in order, each read from the stream exactly once however often it is replayed; Rollback goes back to where the latest open checkpoint was set, so that Next then repeats exactly the elements delivered since, and returns the last element before it; Commit keeps the position and forgets only that checkpoint; and SetStream starts afresh, with nothing left of the previous stream.",
 ["histories"], "every operation sequence (up to 3 open checkpoints and 4 buffered elements, also 8 and 1, 1 and 10; thorough 4 and 6, 12 and 1, 1 and 20)",
 "The accessor's own tests use a few fixed sequences; wrong interplay of buffer, saved element and stack shows only after particular nestings.",
 ["engines/yayamls/pkg/cpaccessor/accessor.go"],
 [("buffer indicator, saved element and checkpoint stack", "engines/yayamls/pkg/cpaccessor/accessor.go")],
 technique=ABS + ": transfer functions of the five operations composed to a closed set of abstract states (elements opaque, positions relative), compared with a stream with positions",
 note="Bounded by open checkpoints and buffered elements; unbounded in the number of operations.")

prop("C10", "Parsing reports an error or accepts the whole input",
 "For every input and option, parsing (Parse, ParseTokens, ParseTokenStream, ParseString, ParseBytes) returns a nil error only if no parse error was recorded and the input has been read to its end; an error recorded at any point of parsing, also in an alternative given up later, stays recorded and is returned. The lexer gets exactly the caller's text; on success the tree is the one the grammar delivered, and the stream node is left out only when asked for and when the stream has exactly one document, which is then returned.",
 ["inputs"], "every input text or token sequence and every combination of options",
 "Tests cover a few malformed inputs; silently accepting a prefix or losing an error needs a particular one.",
 ["engines/yayamls/parser/parser.go", "engines/yayamls/parser/options.go"],
 [("Parse, entry points, error list", "engines/yayamls/parser/parser.go")],
 technique=ABS + " of driver and entry points with the grammar as an arbitrary effect on the parser; must-append analysis of the stores to the error list",
 note="All paths; up to two options.")

prop("C27", "Nothing that was parsed is lost",
 "Whatever the tokens, a node that a parse function delivered and whose tokens were taken for good - a document, an item, an entry, a key, a value, a scalar, an anchor or a tag - becomes part of the node its caller returns, or of the result of parsing: no path accepts the tokens of a piece of content and leaves its node out of the tree.",
 ["inputs"], "every token sequence, through every parse function",
 "Whether a piece of content is left out shows only for inputs that take that very path.",
 ["engines/yayamls/parser/*.go"],
 [("node constructors and gathered lists in the parse functions", "engines/yayamls/parser/*.go")],
 technique="linear-use (must-use) analysis of parsed nodes on top of the parser's typestate analysis over SSA",
 note="All parse functions and paths; the text inside scalars is the concern of C09.")


prop("C17", "What a tree writer writes reads back as the tree it was given",
 "For every tree, WriteString, WriteBytes and WriteTo of the yayamls tree writer give a text that the block rules of YAML read as that tree: the same nesting (whatever collections, keys and documents contain and whatever follows them), texts with their letters, line breaks and final breaks (quoted texts quoted, others readable as unquoted unless they span lines, are empty or begin with a space), nulls, empty collections, tags and anchors on their nodes, aliases, and every document of a stream separate. With an anchors keeper an alias whose anchor was not written before in the same text is replaced by the anchored node, other aliases stay, and every anchor written is announced to the keeper and bound. When quoting, dereferencing or the destination fails the method returns an error and no text. A writer may be used again after a success or a failure and then writes as a new one, and bytes it returned before stay as they are. The goyaml writer gives exactly the yaml package's encoding of the node it was given, or its error.",
 ["inputs", "histories"], "every tree (followed: all trees of the listed kinds of nodes up to three levels of collections, texts of up to four letters and breaks), every text of letters, every failure point, two successive writes",
 "Indentation, chomping and separation depend on the combination of a node, its place and its neighbours; tests write two dozen trees with fresh writers.",
 ["engines/yayamls/encode/writer.go", "engines/goyaml/encode/writer.go"],
 [("block layout", "engines/yayamls/encode/writer.go"), ("anchors already written", "engines/yayamls/encode/writer.go")],
 technique=ABS + " over abstract trees with symbolic letters; the abstract text is read by an independent reader of YAML's block rules and compared with the tree; reuse from every state a write leaves",
 note="All paths. Bounded in depth and length. Letters stand for texts that need no quotes by their characters; an alias as a mapping key and tags with a handle other than !! are outside.")

prop("C15", "Parses, decoders and encoders do not influence one another",
 "Whatever other calls came before or run at the same time, in whatever order, a parse, a decoder or an encoder behaves as if it were the only one: no memory reachable from a package level variable of the library is written once the package is initialised (unless under a lock); what is put into a pool is clean, is not used afterwards and no result refers to its memory; a parser that starts with pooled parts starts from the same state as one with new parts; and neither tokens nor trees hold memory of the caller's input, nor is that memory written.",
 ["schedules", "histories"], "every history and interleaving of calls of the library",
 "Tests run calls one after the other on fresh values; leftovers show only with a particular earlier call, shared memory only with a particular later one or another goroutine.",
 ["engines/yayamls/parser/parser.go", "engines/yayamls/parser/token_source.go", "engines/yayamls/parser/flow.go", "engines/yayamls/parser/block.go", "engines/yayamls/pkg/strslice/unsafe.go", "engines/yayamls/decode/anchors.go", "engines/pkg/schema/schema.go"],
 [("pools", "engines/yayamls/parser/parser.go bufsPool, parserPool; token_source.go accessorsPool"), ("shared nodes", "engines/yayamls/ast/node.go"), ("conversion without copy", "engines/yayamls/pkg/strslice")],
 technique="interprocedural field-based reference flow from package variables and unsafe conversions over SSA; typestate dataflow for pooled objects; abstract interpretation of the parser's entry points with new and with pooled parts",
 note="State behind a lock (the module path cache of the generator) is left to the lock.")

prop("C22", "yamlygen writes exactly the generator's code for the type and flags, or fails",
 "For every combination of command line flags, working directory, go.mod and GOPATH layout: a successful yamlygen run leaves, at the place -output (or the type's name in snake case with the suffix _yamly.go, in the directory of the type) names, exactly the gofmt-ed text the generator gives for the chosen types under the options the flags stand for (engine, omitempty, disallow unknown fields, inlining, pointer receivers), headed by the build tags given, and no other file: stubs, temporary files and the bootstrap program are gone. The package name and import path are those of the directory of the type (module clause of go.mod in every spelling, or GOPATH). Wrong use, a step that fails (file system, go run, formatting) and a type the generator refuses end with a non-zero status.",
 ["inputs", "configurations", "fault_sequences"], "every combination of flags, layout of the project and failing step (followed: every value of each flag with the combinations of two and of all, relative and absolute directories, go generate, module clauses, GOPATH lists, every external call of the run failing in turn)",
 "Only the parser of package paths has tests; the command is run by hand, with the flags of the example.",
 ["cmd/yamlygen/main.go", "generator/bootstrap/generator.go", "generator/parser/parser.go", "generator/parser/pkgpath.go", "generator/parser/modulepath.go"],
 [("flags to options", "cmd/yamlygen/main.go"), ("stub, program, output", "generator/bootstrap/generator.go"), ("package path", "generator/parser/pkgpath.go, modulepath.go")],
 technique="abstract interpretation of main.main with constant flags over an abstract file system and process table; the bootstrap program it writes is type-checked and abstractly interpreted in turn, and the file compared with the constant-propagated text of the generator",
 note="A directory with several non-test packages, and what is left behind when a run fails, are outside the statement.")

prop("C23", "Tokens tile the input and indicators are told from text",
 "For every input text, the tokens of the lexer, put one after another, are the input's characters in order, none lost, doubled or invented, then the end of input, again and again; each token's start and end row and column are those of its characters (a carriage return with a line feed is one break). Lookahead leaves no trace. A character is an indicator exactly where the reading rules say: outside flow collections '-' and '?' set apart (at the start or after a blank, a break or a byte order mark) and followed by a blank, a break or the end, '---' and '...' likewise, ':' followed by such, '[', '{', '#', '&', '*', '|', '>' set apart, '!', quotes and '%' always; inside flow collections also right after '[', '{' and ',', ':' also before a flow indicator or after a closing bracket or quote, ']', '}' and ',' always; a quoted text ends at its first closing quote not doubled (single) or escaped (double); comments, block scalar headers and tags end with the line, tags with a blank too. In raw mode only blanks, breaks, byte order marks and the end are told apart.",
 ["inputs", "histories"], "every input text, with raw mode switched on and off between any tokens (nesting of contexts up to 2, thorough 3; words by their first 2, thorough 4, characters)",
 "The decision depends on the characters around, the nesting and on what was looked ahead; tests sample some dozens of texts.",
 ["engines/yayamls/lexer/*.go", "engines/yayamls/token/*.go", "engines/yayamls/yamlchar/*.go"],
 [("contexts classify the characters", "engines/yayamls/lexer/context.go"), ("words and prepared tokens, positions", "engines/yayamls/lexer/tokenizer.go")],
 technique=ABS + ": Next over unknown characters from every reachable tokenizer state, side by side with an executable form of the reading rules",
 note="Closed set of abstract tokenizer states; bounded in nesting and in the characters of a word followed individually, unbounded in the number of tokens and in texts. The checkpointing accessor by its contract (C26).")


prop("C08", "Character sets and quoting follow the YAML productions",
 "For every text, the character classes (digits, hexadecimal digits, letters, JSON characters, flow indicators, blanks, breaks) and the character sets (decimal, word, URI, tag, anchor, plain safe, single and double quoted) accept exactly what the YAML productions they name accept - URIs and tags with %-escapes of two hexadecimal digits, quotes doubled in single quoted texts, only the escapes of the specification with all their digits in double quoted ones - and a token's answer is that of its text however often and in whatever order it is asked. Unquoting gives the text the quoted form denotes, each escape its character (a number that is no character gives U+FFFD or an error), and reports an error for a form that is not well formed. Quoting a text and unquoting the result gives the text back, and what double quoting writes is a well-formed double quoted line. Nothing panics.",
 ["inputs"], "every text (followed up to 3, thorough 4, unknown characters and, around escapes, up to 11 with known ones)",
 "The sets are over a million characters and unbounded texts; tests sample two texts per set and no conversion at all.",
 ["engines/yayamls/yamlchar/*.go", "engines/yayamls/token/token.go", "engines/yayamls/token/bitmap.go"],
 [("character sets", "engines/yayamls/yamlchar/chars.go"), ("escapes", "engines/yayamls/yamlchar/transformations.go"), ("remembered answers", "engines/yayamls/token/bitmap.go")],
 technique=ABS + " over texts of symbolic characters, each path's character sets run through automata and transducers of the YAML productions; quoting composed with unquoting",
 note="All paths; each character ranges over all code points. Bounded in the length of the texts.")


prop("C19", "Generated code compiles, implements the interfaces, is reproducible",
 "For every type the generator accepts - any nesting of basic, named, imported, anonymous, recursive and marshaller types in pointers, slices, arrays, maps, map keys and struct fields, with any field names, tags and embedding - with either engine and any combination of its options, the file it writes is Go code that compiles in the package of the type, and gives the type the yamly and the engine's marshalling and unmarshalling methods (on the receivers the options ask for). A type it cannot handle is refused with an error; it never panics. The same type and options give the same file.",
 ["inputs", "configurations"], "every type and combination of options (followed: 46 element types in 21 positions as field and as the type itself, 23 struct forms, 30 types to refuse, both engines, up to 6 option sets)",
 "Tests generate for some dozens of types; the text is assembled from pieces that must fit for every combination of type, place and option.",
 ["generator/*.go", "engines/yayamls/engine.go", "engines/goyaml/engine.go"],
 [("decoder text", "generator/decoder.go"), ("encoder text", "generator/encoder.go"), ("names, imports, fields", "generator/generator.go"), ("tags", "generator/tags.go"), ("engine parts", "engines/*/engine.go")],
 technique="constant propagation (abstract interpretation over SSA) of the generator's output text per type; the text is parsed and type-checked with go/types; both orders of map iteration compared",
 note="Bounded family of types. Outside: generic types with arguments of other packages, packages named like a keyword or in/out/key, recursive types without a struct, two fields of one entry name, engine-specific interface fields (refused).")

prop("C20", "Generated decoders fill the value the document describes",
 "For every type the generator accepts and every document, the generated UnmarshalYAML and UnmarshalYamly leave in the target the value the document describes: each mapping entry in the field its key names (also through inlined and embedded fields, which are allocated when needed), each element and entry in its place and order, read with the reader and the bit size of its type, or handed to the field type's own unmarshalling method exactly once; nothing of an earlier value of a slice remains; null leaves or clears as documented; surplus elements of an array and unknown fields are passed over as one node each (or reported when unknown fields are disallowed). Exactly one node is read. The error returned is the first error met by the decoder or a method, and never lost. Generated code never panics and always ends.",
 ["inputs", "configurations"], "every type, combination of options and document (followed: the types of C19, documents that fit and that do not, with 0 to 3 elements, nulls at every place, fresh and used targets, errors of methods)",
 "A test runs some generated types on some documents; a wrong reader, a lost entry or an element too many shows for one type in one place with one shape of document.",
 ["generator/decoder.go", "generator/generator.go", "generator/tags.go", "engines/yayamls/engine.go", "engines/goyaml/engine.go"],
 [("decoder text", "generator/decoder.go"), ("fields and inlining", "generator/generator.go getStructFields"), ("engine parts", "engines/*/engine.go"), ("tags", "generator/tags.go")],
 technique="constant propagation gives the generated text; its SSA form is abstractly interpreted over abstract documents with the decoder replaced by its contract, and the abstract value left compared with the one described",
 note="Bounded family of types and documents; scalar texts are symbols, so what a reader makes of a text is C02's matter. Null leaving a field as it is counts as documented behaviour.")

prop("C21", "Generated encoders insert exactly the value",
 "For every type the generator accepts and every value of it, the generated MarshalYAML and MarshalYamly make exactly the insertions the value describes: StartMapping, every field in order under its own name, EndMapping; every element once and in order; every map entry once, key before value; scalars with the insertion of their kind and without loss of bits; null for nil pointers, slices, maps and interfaces (and a nil receiver); field types with marshalling methods through that method, its text and its error handed on. A field is left out only if it is to be omitted when empty and is empty, if its tag says so, or if a pointer it is embedded through is nil. What MarshalYAML returns is what the encoder gives. Generated code never panics.",
 ["inputs", "configurations"], "every type, combination of options and value (followed: the types of C19, nil, empty, one and two elements at every place, scalars as symbols, both orders of map iteration)",
 "A test encodes some values; an omitted field, a nil dereference or a shortened number shows for one type in one place with one value.",
 ["generator/encoder.go", "generator/generator.go", "generator/tags.go", "engines/yayamls/engine.go", "engines/goyaml/engine.go"],
 [("encoder text", "generator/encoder.go"), ("fields and inlining", "generator/generator.go getStructFields"), ("engine parts", "engines/*/engine.go")],
 technique="constant propagation gives the generated text; its SSA form is abstractly interpreted over abstract values with the inserter replaced by a record, compared with the insertions the value describes",
 note="Bounded family of types and values. Known finding: interface{} holding a value without marshalling methods is lost by the yayamls engine's encoders.")

prop("C12", "Comparing trees decides equality; printing shows every node once",
 "Comparing two syntax trees answers true exactly when they are the same tree: the same kinds of nodes with the same texts, and the same children at the same places (missing ones included); the comparison always ends, and leaves no goroutine behind. Printing a tree writes one line for each of its nodes, in document order (tag before anchor, properties before content, key before value), with the edges that show its depth and whether siblings follow, its kind and its text; a printer can be used again and again with the same result, and printing nothing or to no destination is an error.",
 ["inputs", "histories"], "every pair of trees and every tree printed, in any order (followed: a family of some 150 trees with every kind of node, every missing part and every nesting of the same leaves, all pairs)",
 "The comparison has no tests of its own (the parser's tests rely on it, and see only the answers for the trees they build); trees that differ only in nesting never meet in them. Printing has no tests.",
 ["engines/yayamls/ast/node.go", "engines/yayamls/ast/visitor.go", "engines/yayamls/ast/astcmp/comparator.go", "engines/yayamls/ast/astprint/printer.go"],
 [("two visitors feed the nodes through channels", "engines/yayamls/ast/astcmp/comparator.go"), ("levels that ended", "engines/yayamls/ast/astprint/printer.go")],
 technique=ABS + " of the comparison over all pairs of a family of abstract trees, channels as queues, and of the printer with a symbolic destination",
 note="Bounded by the family of trees; a goroutine that only sends may be run where it is started (Kahn networks), one that also receives makes the check undecided. The style of quoting is not part of the comparison.")

prop("C28", "The parser accepts exactly the streams of YAML 1.2",
 "Every YAML 1.2 stream is accepted with the tree the specification gives it, and every text that is no YAML stream is refused with an error.",
 ["inputs"], "every text", "Tests sample a few dozen documents.",
 ["engines/yayamls/parser/parser.go", "engines/yayamls/parser/block.go", "engines/yayamls/parser/flow.go", "engines/yayamls/parser/scalar.go"],
 [("productions", "engines/yayamls/parser/*.go")],
 na="equivalence of a recursive-descent parser with an indentation-sensitive grammar is a question about unbounded inputs that no static argument in reach decides (already for context-free grammars it is undecidable), and the parser knowingly departs from YAML 1.2 (escapes kept, indicators inside plain scalars refused); what is decidable of it is claimed as C08, C09, C10, C23, C24, C26 and C27")

prop("C29", "Parsing takes time and memory in proportion to the document",
 "The time and memory of parsing grow at most in proportion to the length of the document.",
 ["inputs"], "every document", "Benchmarks sample a few sizes and shapes.",
 ["engines/yayamls/parser/parser.go", "engines/yayamls/pkg/cpaccessor/checkpoint_accessor.go"],
 [("checkpoints", "engines/yayamls/pkg/cpaccessor/checkpoint_accessor.go")],
 na="how often a part of the text is read again by backtracking alternatives is a runtime quantity; a static bound would need an amortised cost argument over nested, value-dependent alternatives, and a measurement would be a runtime test. That parsing ends at all is claimed as C24")

prop("C30", "The two engines read and write the same values",
 "The same document decoded into the same type, or the same value encoded, gives the same value and equivalent documents with either engine.",
 ["inputs", "programs"], "every document, value and type", "Tests compare the engines on a few examples.",
 ["engines/goyaml/decode/reader.go", "engines/yayamls/decode/reader.go", "engines/goyaml/encode/writer.go", "engines/yayamls/encode/writer.go"],
 [("shared interfaces", "decode.go, encode.go")],
 na="one engine parses and writes with gopkg.in/yaml.v3, whose behaviour on every text is outside the repository and would have to be proved equal to this repository's parser, which differs knowingly (see C28); what both engines do between tree and value is claimed, for both, as C01, C02, C04-C07, C11, C14, C19-C21")
