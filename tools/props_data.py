FM = ["msgpackparse.go", "msgpack_value.go", "msgpack_codes.go"]
FB = ["bson_parse.go", "bson_code.go"]
FJ = ["jsonparse.go", "dxvalue.go"]

prop("C01", "MsgPack round trip preserves every value",
     "Encoding any value tree to MessagePack and decoding the result yields a tree with the same shape, kinds and content: objects with the same keys in the same order, arrays, strings, 64-bit integers, 32- and 64-bit floats bit for bit, binaries, extension values with their type byte, null and booleans; NaN and infinity constants come back as a NaN and an infinite double. Encoding does not alter the encoded value.",
     ["inputs"], "all trees of up to two nested containers with symbolic keys, strings, numbers, binaries; payload lengths around every length-prefix boundary up to 65536; element counts around 15/16, 31/32, 255/256; with and without the value cache and with shared or copied input",
     "The tests decode a few literal documents; the encoders choose among many length- and range-dependent forms that no test samples.",
     FM + ["dxvalue.go"], [("Value2MsgPack writes the shortest form", "msgpackparse.go"), ("parseMsgPackValue reads every form", "msgpackparse.go")],
     bounds={"tree": "depth 3, up to 3 children, keys and strings up to 2 bytes, every content byte and every 64-bit integer and float symbolic", "lengths": "3,4,5,7,8,9,15,16,17,31,32,33,127,128,255,256,257,65535,65536 with three symbolic bytes", "counts": "14..17, 31..33, 255..257 elements; arrays and parsed objects of 65535..65537"}, steps=80000000,
     assume=["extension values are not of type -1 with the length of a timestamp"])

prop("C02", "MsgPack decoding follows the MessagePack specification",
     "Decoding any byte string gives exactly the value the MessagePack specification assigns to the first object in it, or an error when the bytes are not a well-formed object; signed and unsigned integers keep their numeric value, floats their bits, strings, binaries and extensions their bytes, timestamps their instant. Non-minimal encodings are accepted; map keys must be strings; bytes after the first object are ignored.",
     ["inputs"], "all byte strings up to the stated length, and longer ones for every wide header, with and without cache and shared input",
     "Tests decode output of one encoder; the decoder must agree with the specification on every header byte, width, sign and truncation.",
     FM, [("parseMsgPackValue dispatch on the header byte", "msgpackparse.go"), ("parseLen, parseMapLen, parseArrLen, parseExtLen", "msgpack_value.go")],
     bounds={"free": "every byte string of up to 4 bytes (quick), 5 (thorough)", "wide": "every multi-byte header with 5 to 31 further symbolic bytes", "counts": "16- and 32-bit counts with up to two elements", "nested": "containers of wide scalars two deep"},
     assume=[T_TIME, "unsigned 64-bit integers above the int64 maximum are out of scope", "binary-typed map keys are out of scope", "timestamps between 1900 and 2190"])

prop("C03", "MsgPack decoding never panics and rejects truncation",
     "Decoding arbitrary bytes as MessagePack always returns, with either a value or an error and never both missing or both present; no input makes it panic or run away. Every proper prefix of an encoded document is rejected with an error, and a value that failed to load can still be used.",
     ["inputs"], "all byte strings up to the stated length; all prefixes of encodings of all small trees",
     "Tests contain no malformed MessagePack at all.",
     FM, [("length checks before every slice", "msgpack_value.go")],
     bounds={"decode": "every byte string of up to 4 bytes (quick), 6 (thorough)", "prefix": "every proper prefix of the encoding of every tree in the C01 family with strings of up to 1 byte"})

prop("C04", "BSON round trip preserves every document",
     "Encoding any object to BSON and decoding the result yields an object with the same keys in the same order and the same content: nested objects and arrays, strings, 64-bit integers, doubles, binaries, booleans, null; 32-bit floats come back as the equal double, NaN and infinity constants as a NaN and an infinite double. Encoding does not alter the encoded value.",
     ["inputs"], "all objects of small nested shape with symbolic keys (no NUL byte), strings, numbers, binaries",
     "The single BSON test encodes one document and checks it by printing.",
     FB, [("writeObjBsonValue / writeBsonValue length back-patching", "bson_parse.go"), ("parseBsonDocument", "bson_parse.go")],
     bounds={"tree": "objects of up to two nested containers, up to 3 members, keys and strings up to 2 symbolic bytes", "lengths": "keys, strings and binaries of 3, 11..13, 15..17, 127, 128, 255, 256, 65535 and 65536 bytes", "counts": "arrays and objects of 9, 10, 11, 99, 100, 101, 999..1001, 10001 elements (array names gain a digit)"}, steps=30000000, assume=["keys contain no NUL byte (not representable in BSON)"])

prop("C05", "BSON decoding follows the specification, never panics",
     "Decoding any byte string as BSON gives the document the BSON specification assigns to it, for the element types the library supports (double, string, document, array, binary, object id, boolean, date, null, int32, timestamp, int64, decimal128; undefined and the min and max keys read as null), or an error when it is truncated, has inconsistent lengths, misses a terminator or uses another element type. It never panics and never returns neither value nor error.",
     ["inputs"], "all byte strings up to the stated length, and every single-element document of every supported type with symbolic key and content",
     "Tests contain no malformed BSON and one well-formed document.",
     FB, [("parseBsonDocument, parseBsonElement length checks", "bson_parse.go")], bounds={"free": "every byte string up to 8 bytes with a free body", "elem": "one element of every type byte with symbolic key and content; wide, nested, paired elements and every prefix of a document"}, assume=[T_TIME, "no NUL inside keys, no repeated keys, arrays named 0,1,2..., nothing after the document, boolean bytes 0 or 1"])

prop("C06", "JSON parsing never panics or hangs",
     "Parsing arbitrary bytes as JSON always terminates with either a value or an error (whose message can be formatted), never neither and never a panic; after a failed load the value can still be read, encoded, reset and loaded again.",
     ["inputs"], "all byte strings up to the stated length and all single-byte corruptions and truncations of a set of documents",
     "Tests parse valid documents only.",
     FJ, [("parseJsonValue and helpers check for the end of input", "jsonparse.go"), ("ErrorParseJson.Error", "jsonparse.go")], bounds={"free": "every byte string of up to 4 bytes (thorough 5)", "places": "up to 3 (thorough 4) free bytes at the start of every construct and after a backslash", "mutate": "three documents with any byte replaced, removed or inserted, or cut anywhere with one more free byte", "deep": "nesting up to 80 levels", "after": "read, encode, clone, reset, clear, load again after each failure"}, assume=[T_FLOAT, "the notation /Date(...)/ is only reached by its first characters"])

prop("C07", "JSON parsing gives the document's meaning",
     "Every document valid under RFC 8259 (in UTF-8) is accepted and reads back as the value it denotes: objects with unescaped keys, arrays, strings with all escapes including surrogate pairs decoded, integers within int64 exactly, other numbers as the nearest double, true, false, null, with white space ignored. Documents with missing or extra structural characters, unterminated strings or data after the top-level value are rejected.",
     ["inputs"], "all documents of small grammar shapes with symbolic string bytes, escapes, digits and white space",
     "Tests check a handful of keys in two documents.",
     FJ, [("parseJsonObj/parseJsonArray/parseJsonString/parseJsonNum", "jsonparse.go"), ("UnEscapestrs and String decode escapes lazily", "dxvalue.go")], bounds={"free": "every byte string of up to 5 bytes (thorough 7)", "string": "up to 4 (thorough 6) free bytes inside a string, 3 (5) inside a key, as an element, as a member; 2 on each side of a document", "escapes": "every four-digit escape, alone and in pairs, every surrogate pair", "utf8": "every UTF-8 sequence of 2 to 4 bytes", "space": "1 or 2 white space characters between any two tokens of a document", "tokens": "a document with any token dropped, doubled, replaced or cut", "integers": "up to 19 digits, nine of them symbolic, and the ends of the range", "doubles": "30 decimal texts and every text up to the free bound"}, assume=[T_FLOAT, "strings in the library's /Date(...)/ notation, repeated keys, raw control characters, unknown escapes, lone surrogates, invalid UTF-8, nan/inf words, numbers outside the RFC grammar or the double range: no claim"])

prop("C08", "JSON written by the library parses back to the same value",
     "Writing any value tree as JSON, compact or formatted, with default or full escaping, produces a valid RFC 8259 document (NaN and infinity apart) that parses back to the same tree: same keys, order, strings, and numbers by value. Writing does not alter the value.",
     ["inputs"], "all trees of small shape with symbolic keys and strings (valid UTF-8), integers, doubles, both layouts and escape styles",
     "Tests print the output without parsing it.",
     FJ, [("Value2Json, formatValue, escape functions", "jsonparse.go")], bounds={"strings": "nine shapes of valid UTF-8 up to five symbolic bytes, every code point of each length", "integers": "every int64", "doubles": "every double of the text shapes d.d and dd.dd with symbolic digits, 44 further float64 and float32 values", "trees": "nine shapes up to four deep", "parsed": "documents with up to 3 (thorough 4) free string bytes, written before or after being read or changed", "writers": "Value2Json, Value2FormatJson, ToJson, String, Marshal; both escape styles"}, assume=[T_FLOAT, "numbers compare by value: an integral double may come back as the equal integer", "binaries, dates, NaN and infinity have no JSON form and are left out"])

prop("C09", "YAML parsing never panics or hangs",
     "Parsing arbitrary text as YAML (NewValueFromYaml, LoadFromYaml) always terminates with either a value or an error, never neither and never a panic, whatever the indentation, line endings and truncation; both entry points accept the same texts; a finished or failed parse leaves nothing behind that changes a later one, and a value whose load failed stays usable.",
     ["inputs", "histories"], "all texts up to the stated length over the characters that steer the parser, documents mutated or cut anywhere, lines of every kind at every indentation, and two parses in sequence",
     "Tests parse two well-formed files.",
     ["yamlparse.go", "dxvalue.go"], [("yamlParser.parse line loop, popTo, parseArray, parseObject, setMember, mergeObject, parseStringValue, splitKv", "yamlparse.go"), ("LoadFromYaml", "dxvalue.go")],
     bounds={"free text": "0..5 (thorough 0..6) bytes out of 19 that steer the parser; 0..4 (thorough 0..5) bytes of any value", "mutation": "three documents, one byte replaced, removed or inserted anywhere, any byte", "cut": "the documents cut anywhere, followed by 0..1 (thorough 0..2) free bytes", "lines": "two (thorough: three, the middle one of four kinds) lines of 12 kinds with free characters, indented 0..3, LF or CRLF, with or without final line end"}, assume=[T_POOL, T_FLOAT])

prop("C10", "YAML block mappings and sequences give their meaning",
     "A YAML document of nested block mappings and sequences with consistent indentation (any width, compact sequences, nested sequence marks, elements on the mark's line or below it), plain one-line or folded scalars, JSON-style flow values, anchors, aliases and merge keys, comments, blank lines and a leading document mark parses to the objects, arrays, strings, numbers and booleans it denotes, in order, with or without a final line break, with LF or CRLF line ends, through NewValueFromYaml and LoadFromYaml alike.",
     ["inputs"], "all documents of small block shapes with symbolic keys and scalars, every layout within the stated choices",
     "Tests check a few keys of two files.",
     ["yamlparse.go"], [("yamlParser.parseLine, popTo, parseObject, parseArray, splitKv, appendText, aliasValue", "yamlparse.go")],
     bounds={"shapes": "16 trees, up to 4 levels and 6 nodes", "layout": "indent steps 1..3 (sequences 0..2), 1..2 spaces after marks or element on the next line, one comment or blank line anywhere or one scalar with extra spaces or a trailing comment (thorough: combined with leading lines)", "scalars": "true, false, integers of up to 3 digits and sign, n.5, plain texts of 1..3 printable bytes", "alias": "six documents with symbolic names and scalars", "flow": "five JSON values in mappings and sequences"},
     assume=["quotes, tags, block scalars, null, multi-document streams and keys without content are outside the claim", "numbers are decimal integers or halves; other fractions go through DxCommonLib.ParseFloat", T_POOL])

prop("C11", "A value never shows traces of earlier values",
     "The result of creating or parsing a value does not depend on what was created, parsed, failed to parse, cleared or freed before it, with or without the value cache: recycled storage never shows old members, strings, numbers, binaries, key-escaping state or type tags. A value freshly created or reset to a type reads as that type's zero or empty value.",
     ["histories", "inputs"], "all histories of one or two earlier create/parse/fail/free steps over small symbolic contents, followed by a create or parse of symbolic content",
     "Tests never free a value and parse again, and recycled storage depends on the history.",
     ["cache.go", "dxvalue.go", "yamlparse.go"], [("ValueCache.getValue resets recycled cells", "cache.go"), ("Reset and Clear", "dxvalue.go")], bounds={"history": "one earlier step (thorough: two): any of 13 cached values created and freed, cleared or reset, or one of 6 failing parses", "then": "creation of every type three ways, parses of symbolic documents in MessagePack, BSON and JSON, reloads"}, assume=["a freed value is not used again"])

prop("C12", "Loading into an existing value equals parsing a new one",
     "Loading a non-empty document into an existing value of any type and content gives the same result as parsing it into a new value: same acceptance, same tree, nothing left of the old content; for MessagePack, BSON and JSON.",
     ["inputs", "histories"], "all small documents with symbolic content loaded into values of every type",
     "Tests load into fresh values only.",
     ["dxvalue.go", "msgpackparse.go", "jsonparse.go", "bson_parse.go"], [("LoadFromMsgPack/Json/Bson/Yaml", "dxvalue.go")], bounds={"free": "every byte string of 1 to 3 bytes (thorough 5) as MessagePack and JSON", "docs": "encoded trees, every BSON element type with truncations, JSON documents with one free byte", "targets": "12 kinds of earlier content"}, assume=[T_TIME, "strings in the /Date(...)/ notation are left out: their parsing reads the clock"])

prop("C13", "Objects behave as ordered maps",
     "An object under any sequence of set, overwrite, remove, extract, lookup and clear operations behaves as an insertion-ordered map with unique keys: a lookup returns the last value set, overwriting keeps the position, removal deletes exactly that key, and count, key names, items and visiting agree. Keys are compared exactly (or, when the case-insensitive option is on, ignoring ASCII case), and any byte may occur in them, including backslashes.",
     ["histories", "inputs"], "all sequences of up to three (thorough: four) operations with symbolic keys and values on objects built by hand or parsed from JSON",
     "Tests set distinct literal keys once.",
     ["dxvalue.go"], [("VObject key search, getKv growth, Remove", "dxvalue.go")], bounds={"ops": "three operations on hand-built and decoded objects (two when it starts with members, quick), keys of up to 2 bytes from a symbolic family", "grow": "7, 8, 9, 16, 17, 33 members"}, assume=["case-insensitive comparison checked on ASCII names"])

prop("C14", "Arrays behave as lists",
     "An array under any sequence of set-at-index, append, insert and remove operations behaves as a list: setting at an existing index replaces that element, setting outside the range appends, insertion shifts the rest right, removal shifts it left, out-of-range reads give the default, and no other element changes.",
     ["histories", "inputs"], "all sequences of up to three (thorough: four) operations with symbolic indexes and values",
     "Tests append to fresh arrays only.",
     ["dxvalue.go"], [("SetIndex, InsertValue, RemoveIndex, Append", "dxvalue.go")], bounds={"ops": "two operations (three on empty arrays and in the thorough tier); every index an unconstrained 64-bit integer", "grow": "growth past the internal capacities"})

prop("C15", "Path lookups and defaults",
     "A path lookup returns exactly the value reached by following its steps as object keys (or array indexes), and the caller's default, never a panic, when a step is missing or leads through a scalar; by-name and by-index typed reads return the member converted to the type, and the default only when it is absent. Forcing a path (through array elements only at an existing index or the end) creates the missing objects, keeps everything else, and the created value is found at that path afterwards.",
     ["inputs"], "all paths of up to three symbolic steps on small trees",
     "Tests look up two literal paths.",
     ["dxvalue.go"], [("ValueByPath, ForcePath, *ByPath, *ByName, As*", "dxvalue.go")], bounds={"paths": "up to three steps of symbolic text on trees two deep"}, assume=["path steps that name array indexes are decimal numbers"])

prop("C16", "Scalars read back what was set",
     "After setting a scalar on any existing value, directly, by key or by index, it reads back exactly: its type, the integer, float, double, boolean, string or binary set, and the conversions between integer, float, double, boolean and text that the value offers; nothing of the previous content remains visible. (Setting a double on a date-time keeps it a date-time with that day count.)",
     ["inputs", "histories"], "every previous type and content, every new scalar with symbolic content",
     "Tests set literals on fresh values.",
     ["dxvalue.go", "bin_value.go"], [("SetInt, SetDouble, SetFloat, SetString, SetBool, SetBinary", "dxvalue.go")], bounds={"previous": "12 kinds of earlier content", "new": "every int64, float32, float64, bool; strings and binaries up to 2 bytes; texts up to 4 bytes for the conversions"}, assume=["float formatting is checked on texts of the shapes 1, 3 digits and 1.1, 2.2 digits, each with sign, and nan/inf; decimal digits of other floats are the standard library's"])

prop("C17", "Clones and copies are deep and independent",
     "Cloning a value, copying it into another or adding its members to another gives equal content with no shared storage: changing, clearing or freeing one side afterwards never changes the other, and the source is not changed by being copied.",
     ["inputs", "histories"], "all small trees with symbolic content, every mutation of either side, with and without cache",
     "Tests never mutate after cloning.",
     ["dxvalue.go"], [("clone, CopyFrom, AddFrom", "dxvalue.go")], bounds={"sources": "scalars of every kind, four tree shapes two deep (thorough: also every tree of the C01 family), built, parsed from JSON with escapes, decoded, or cached", "changes": "every mutation of either side at the root or a child (thorough: grandchild), freeing either side and reusing the cache"})

prop("C18", "Equality is content equality",
     "Two values compare equal exactly when they have the same content: objects with the same members in the same order, arrays with equal elements in order, strings by their decoded text, numbers of one kind by their exact value (floats by their bits), numbers of different kinds by their value as double, binaries by type and bytes. Equality is reflexive, symmetric and never changes or panics on its operands.",
     ["inputs"], "all pairs of small trees with symbolic content",
     "No test covers equality on nested values.",
     ["dxvalue.go"], [("Equal", "dxvalue.go")], bounds={"pairs": "every pair of scalars (strings up to 2 bytes), every pair of 9 tree shapes with symbolic content, parsed values with escapes"})

prop("C19", "Shared constants never change",
     "The shared null, true, false, NaN and infinity values that parsers and setters hand out are never changed by any operation on a tree that contains them: setting, resetting, clearing, merging or freeing such a member leaves every other tree's null, true or false as it was, and what is set under one tree's constant cannot be reached through another's.",
     ["histories"], "every mutating operation applied to members holding each shared constant, followed by a parse that hands the constants out again",
     "A change to a shared constant shows in an unrelated tree only.",
     ["dxvalue.go", "cache.go"], [("ReadOnly guards in setters, Reset, Clear", "dxvalue.go")], bounds={"trees": "five ways to get each of five constants into a tree", "ops": "24 operations on the member, 16 on its tree"})

prop("C20", "Merging is a union that keeps the target",
     "Merging a source into a target adds every source member the target lacks, merges members that are objects on both sides recursively and arrays on both sides by appending the elements the target does not already contain; where only the target's member is an object or array, or they are of different container kinds, the target's stays. It leaves everything else of the target in place. For every key on both sides the callback is asked once, with its path, and its decision is applied: keep, replace, or merge, which for a scalar of the target keeps both in an array; without callback everything is merged. The source is unchanged and later changes to either side do not affect the other.",
     ["inputs"], "all pairs of small trees with symbolic keys and values, every callback decision",
     "The merge test prints its result.",
     ["dxvalue.go"], [("MergeWith", "dxvalue.go")], bounds={"objects": "one and two members with symbolic keys and values, nested one and two deep", "arrays": "two elements each, scalars or containers", "callback": "every decision, also different ones per depth, and none"})

prop("C21", "Decoded values do not alias input; encoders append",
     "Unless sharing was asked for, a decoded value keeps its content when the caller overwrites the input buffer afterwards. Encoders append to the buffer they are given, leaving its existing bytes as they were, produce the same bytes for the same value every time, and the bytes do not change when the value is changed later.",
     ["inputs", "histories"], "all small documents in each format with symbolic content; input overwritten with symbolic bytes",
     "Tests never touch the input after decoding.",
     ["msgpackparse.go", "jsonparse.go", "bson_parse.go", "yamlparse.go"], [("string(b) copies unless sharebinary", "msgpackparse.go")], bounds={"decoding": "documents with symbolic strings, keys and binaries in MessagePack, BSON, JSON; the input is overwritten", "encoding": "buffers of 0..2 symbolic bytes with 0, 1, 3 or 64 spare bytes, eight encoder entry points"}, assume=["YAML: see C10"])

prop("C22", "Go values are stored as the value tree they denote",
     "Storing a Go value with SetValue, or under a new name or over a scalar with SetKeyvalue and SetIndexvalue, gives the value tree it denotes: integers of every width, floats, strings, booleans, byte slices and times, named types and pointers to them, maps with string keys, slices and structs of these, nested in each other. Nil pointers and nil interfaces are stored as null, empty maps and slices as empty objects and arrays; no member or element is lost or shifted, other members stay as they were, byte slices are copied, and a type with its own EncodeToDxValue is stored as that encodes it.",
     ["inputs"], "Go values of the supported static types with symbolic content, stored at the root of values of several kinds, in objects and in arrays",
     "Tests store one struct; nil, unsigned, named and empty parts are never stored.",
     ["reflect_parse.go"], [("SetValue, SetKeyvalue, SetIndexvalue", "reflect_parse.go")],
     bounds={"scalars": "every predeclared integer, float, string, bool and []byte type, six named types, by value and by pointer, 12 nils; strings and bytes up to 2 (thorough 4) bytes", "containers": "13 map, 14 slice and 4 struct types with up to four members, one to three levels deep", "places": "root of five kinds of value, new and scalar members and elements"},
     assume=[T_TIME, "NaN floats, arrays, channels, functions, complex numbers, maps with other keys, unexported fields and pointers to pointers are left out; a container stored over a member of the same kind merges with it and is left out", "reflect and sync.Map are modelled by the engine (engine/reflect.go), type by type; every path is also run natively in sampled validation"])

prop("C23", "Saving to and loading from files",
     "Saving a binary, an extension or, as JSON (with or without byte order mark and formatting), any value to a file makes the file hold exactly that, whatever it held before, and loading it gives the same content back; a file of any length is read whole, and JSON, MessagePack and YAML files load as their content does, a leading byte order mark skipped in JSON and YAML. A file that cannot be opened, read or written is reported as an error, and the value stays as it was and usable.",
     ["inputs", "histories"], "symbolic contents of lengths around the read buffer sizes, every earlier file state, every kind of refusal",
     "Tests read existing files only.",
     ["iofiles.go", "bin_value.go", "jsonparse.go", "msgpackparse.go", "yamlparse.go"], [("ReadFile, SaveBinaryToFile, SetBinaryFromFile, Value2File", "iofiles.go")],
     bounds={"lengths": "0..4, 511..513, 1024, 1025 and 4097 bytes with symbolic first, middle and last byte", "before": "no file, empty, shorter, longer", "refusals": "missing file, missing directory, directory instead of file, full device", "trees": "JSON: 8 shapes with symbolic content; MessagePack: all trees of vxTree; YAML: one mapping with a list"},
     assume=["the operating system's files are a model (engine/files.go): writes and reads are whole or refused; short reads, concurrent writers and permissions are left out", "SaveBinaryToFile and SetBinaryFromFile on a value that is not a binary do nothing"])

prop("C24", "Instants survive MsgPack and BSON",
     "A date-time set on a value reads back as the same instant, whatever location the time is in, and still does after a round trip through MessagePack or BSON, for every instant between 1900 and 2190, to the millisecond (a time set with whole milliseconds reads back as exactly that). Its text, plain or in JSON, shows its own second, and JSON, in either notation, reads back as an instant of that second.",
     ["inputs"], "every second and nanosecond in the range",
     "Tests use the current time only.",
     ["dxvalue.go", "msgpackparse.go", "bson_parse.go", "jsonparse.go"], [("SetTime, GoTime, delphi2Time; 32-, 64- and 96-bit timestamp forms", "msgpackparse.go")], bounds={"instants": "every second and nanosecond between 1900 and 2190", "locations": "local (UTC), UTC and every whole-second offset within 18 hours", "text and JSON": "every nanosecond (up to .999) of each of ten consecutive seconds after four (thorough eight) dates, compact and formatted, both notations"}, assume=[T_TIME])

prop("C25", "Values keep their meaning across formats",
     "A value parsed from one format and written in another keeps its meaning: keys and strings parsed from JSON are written to MessagePack and BSON decoded, and values decoded from MessagePack or BSON are written to JSON escaped, whether or not the value was read in between.",
     ["inputs"], "all small documents with symbolic keys and strings, escapes included; every pair of formats",
     "Tests never convert between formats.",
     ["jsonparse.go", "msgpackparse.go", "bson_parse.go", "dxvalue.go"], [("raw strings and keys are decoded on demand", "dxvalue.go")], bounds={"from JSON": "up to 2 (thorough 3) free string bytes as key and value at five places, all two-character escapes, symbolic \\u escapes, integers and doubles", "from MessagePack and BSON": "four tree shapes with symbolic UTF-8 keys and scalars of every kind", "reading": "not at all, or in five ways, before writing", "chains": "up to three conversions in a row"}, assume=[T_FLOAT, "no NUL in keys written to BSON; binaries are not written to JSON; extension values are left out"])

prop("C26", "Values convert into Go destinations",
     "ToStdValue restores what the value holds into a Go destination: scalars of every width, floats, strings, booleans, bytes and times through pointers; objects into generic and string maps; arrays into generic, string and typed slices of any earlier length and capacity; structs field by field, nested structs and slices included, matching names exactly or ignoring case, leaving unmatched and unexported fields alone. A Go value stored and converted back into its own type is unchanged. A destination of the wrong shape is refused with false, nothing panics, and the value itself does not change.",
     ["inputs"], "Go values of the supported destination types with symbolic content; all small trees into destinations of every shape",
     "Tests convert one struct with plain fields.",
     ["reflect_parse.go"], [("ToStdValue, decode2reflectFromdxValue, decodeArray2reflect", "reflect_parse.go")],
     bounds={"scalars": "every predeclared integer, float, string, bool, []byte and time", "slices": "nine element types, 0..3 elements into slices of length 0..3 with 0 or 2 spare", "structs": "21 fields of all kinds, fresh and used destination", "names": "field names against names of 0..3 symbolic ASCII bytes", "generic": "all trees of vxTree into generic maps and slices"},
     assume=[T_TIME, "NaN floats, map, pointer and interface fields, nil pointers as destination and generic slices shorter than the array are left out", "reflect and sync.Map are modelled by the engine (engine/reflect.go)"])

prop("C27", "Values of separate goroutines do not interfere",
     "Goroutines that each parse, build, change, convert, encode and free values of their own may run at the same time: each gets the results it would get alone, whatever the order of their steps, and no memory is accessed by two of them, one writing, without synchronisation. They may read the same input bytes; documents that fail to parse are no exception.",
     ["schedules", "inputs"], "every pair of 14 scripts of up to three steps, every order of their steps, symbolic string content, every choice of the pools",
     "No test starts a second goroutine; a race shows in one schedule in very many.",
     ["cache.go", "dxvalue.go", "jsonparse.go", "yamlparse.go", "msgpackparse.go", "bson_parse.go", "reflect_parse.go"],
     [("pools of caches and parsers; the shared constants; the read-only guards", "cache.go"), ("type information kept in a sync.Map", "reflect_parse.go")],
     bounds={"goroutines": "two", "steps": "up to three calls each, every order of whole steps", "scripts": "14: JSON plain, escaped and broken, MessagePack, BSON, YAML with and without anchors, building, constants, merging, copying, Go values, time", "races": "accesses not ordered by the happens-before relation of the orders explored: two accesses of unordered steps are reported whichever ran first"},
     assume=["steps of different goroutines are not interleaved inside a step: unsynchronised accesses are reported as races instead, and synchronised ones are pool and mutex operations", "concurrent use of one value, also for reading, is not claimed: values parsed from JSON decode their strings when they are read", "sync.Pool, Mutex, Once, sync.Map and atomics are modelled by the engine (engine/race.go)"])

prop("C28", "Names ignore case when IgnoreCase is on",
     "With the IgnoreCase option on, an object is a map whose names are compared without regard to the case of ASCII letters: setting, overwriting, removing, extracting, looking up by name or path, creating paths and merging all treat names that differ only in case as one member, which keeps its position and its spelling, whether the object was built, decoded from MessagePack or parsed from JSON with escaped names. With the option off again, case matters.",
     ["inputs", "histories"], "all sequences of two operations with symbolic printable ASCII names on objects of three origins; two-level paths and merges",
     "No test turns the option on.",
     ["dxvalue.go"], [("indexByName, ValueByName, Remove, ExtractValue, mergeObject", "dxvalue.go")],
     bounds={"names": "one symbolic printable ASCII byte, alone or behind a fixed prefix, and the empty name", "operations": "one or two (thorough three) of eight kinds", "merge": "three members with two, normal and replacing"},
     assume=["names outside ASCII, where Unicode folding applies, are left out", "the option is not changed while other goroutines work"])

prop("C29", "Converters decide how their types are filled",
     "A function registered for a type with RegisterTypeMapFunc, or a type's own DecodeFromDxValue method, decides how ToStdValue fills places of that type: it is called exactly once with the matching member, as a field, an element of a slice, and below other structs and slices, for types of any kind; a type with the method also as the destination itself. Other fields are filled as usual, unmatched ones are left alone, a nil function counts as none, and the value does not change.",
     ["inputs"], "destinations with converted fields, elements and nested parts, members of every kind with symbolic content",
     "One test registers a converter and prints.",
     ["struct_type.go", "reflect_parse.go"], [("RegisterTypeMapFunc, structTypePool", "struct_type.go"), ("decode2reflectFromdxValue, decodeArray2reflect", "reflect_parse.go")],
     bounds={"places": "field, slice element, field of a struct, field of a struct in a slice, map-typed field, root", "members": "scalars of vxFewScalar, small objects", "names": "one symbolic ASCII byte, exact and ignoring case"},
     assume=["a registered function is not consulted for the destination itself, as the code has it", "methods with a pointer receiver on non-pointer fields are not found", "reflect and sync.Map are modelled by the engine (engine/reflect.go)"])

for p in P:
    if p["id"] in ("C01", "C04", "C07", "C08", "C11", "C12", "C17", "C18", "C21", "C25", "C26"):
        p["bounds"]["larger trees"] = "containers of 3, 25 and 150 (thorough also 12 and 70) members of every kind with keys of 0 to 170 bytes, and 4, 13 and 40 (thorough also 7) levels; a few symbolic leaves; changes at the first, second, middle and last member"
    if p["id"] in ("C03", "C05", "C07"):
        p["bounds"]["larger documents"] = "every proper prefix of documents of 12 and 40 members of every kind"
    if p["id"] == "C20":
        p["bounds"]["larger trees"] = "20 and 65 members on each side, half of them common; ten levels"
    if p["id"] == "C13":
        p["bounds"]["grow"] = "7, 8, 9, 16, 17, 33, 65, 130, 257 members"
    if p["id"] == "C14":
        p["bounds"]["grow"] = "7 to 1025 elements at ten sizes"
    if p["id"] == "C23":
        p["bounds"]["lengths"] = "0..4, 511..513, 1024, 1025, 4097, 32769 and 65537 bytes with symbolic first, middle and last byte"
    if p["id"] in ("C17", "C18", "C20"):
        p["bounds"]["leaves"] = "the five shared constants, times with and without milliseconds and before 1970, extension values, alone and inside containers"
    if p["id"] == "C13":
        p["bounds"]["first"] = "every first reader or change on an object whose escaped names and texts were not yet decoded"
    if p["id"] in ("C14", "C16"):
        p["bounds"]["odd members"] = "shared constants, NaN, infinity and times as the previous elements and members"
    if p["id"] == "C24":
        p["bounds"]["text"] = "texts in three notations (ISO, with spaces, with slashes) read as their instant by GoTime, DateTime and TimeByName"
    if p["id"] == "C26":
        p["bounds"]["slices"] = "slices of every integer width, signed and unsigned, of named strings and of generic values"
    if p["id"] == "C15":
        p["bounds"]["corners"] = "no step, names inside arrays, constants on the way and as the start; times by name and by path"
    if p["id"] == "C16":
        p["bounds"]["others"] = "the constants' conversions, durations in text, values put into scalars by SetKeyValue and SetIndexValue"
    if p["id"] == "C19":
        p["bounds"]["children"] = "eight ways of making a child of a constant, after five ways of storing into another tree's same constant"
    if p["id"] == "C04":
        p["bounds"]["roots"] = "arrays and scalars as the root"
    if p["id"] == "C08":
        p["bounds"]["special"] = "the style without escaping on text that needs none, members without a value, ObjectIDs and decimals"
    if p["id"] == "C22":
        p["bounds"]["times and values"] = "times in typed maps, slices, structs and behind pointers; values stored by pointer and by value"
    if p["id"] == "C26":
        p["bounds"]["times"] = "times in generic maps and slices, nested"
