def how(id, method, oracle, reach, cost):
    HOW[id] = dict(method=method, oracle=oracle, reach=reach, cost=cost)

how("C01", "encode with Value2MsgPack and decode again for every tree of a symbolic family (`vxTree`), at every length-prefix boundary and count boundary; with cache or not, shared input or not.",
    "the tree the harness built, kept as a plain Go description (`vxNode`), compared member by member (`vxHas`); the encoded value is compared with it again afterwards.",
    "the encoder picks among 15 forms by value range and length; the solver covers each side of every comparison it makes.", "12 s")
how("C02", "decode arbitrary bytes; a second decoder written from the MessagePack specification (`lib_msgpack.go`, `mpDec`) runs on the same symbolic bytes.",
    "the specification decoder: same acceptance, same tree.", "all headers, widths, signs and truncations are one symbolic string.", "16 s")
how("C03", "decode arbitrary bytes, and every proper prefix of every encoded tree; loads into existing values included.",
    "no panic (every implicit check is a query), value xor error, prefixes rejected, failed value usable.", "malformed input is the whole space outside the tests.", "26 s")
how("C04", "as C01 for BSON, with the length back-patching, array names beyond 9 and 99, sub-typed binaries, object ids, decimals, timestamps.",
    "the built tree.", "lengths and counts at which the names or headers change width.", "20 s")
how("C05", "decode arbitrary bytes and symbolic elements of every type byte, truncated, nested, paired.",
    "a BSON reader written from the specification (`lib_bson.go`).", "length fields are fully symbolic, so every inconsistency is covered.", "29 s")
how("C06", "parse arbitrary bytes, mutated and cut documents, free bytes at each construct; then use the failed value in several ways.",
    "no panic, value xor error, bounded steps; `Error()` formats.", "errors near the end of the input were a genuine defect that only this found.", "23 s")
how("C07", "parse arbitrary bytes, and free bytes at every construct of structured documents.", "an RFC 8259 reader written for the harness (`lib_json.go`, `jsonRead`): must accept what is valid, with equal meaning, and must reject what the property lists.",
    "escapes, surrogates, numbers and structure in one symbolic text.", "21 s")
how("C08", "build or parse values with symbolic content, write them (four writers, two styles), and read the text with the RFC reader as well as with the library.",
    "the RFC reader accepts the text and yields the tree that was written.", "each escape class and number form is a branch the solver covers.", "46 s")
how("C09", "parse arbitrary text over the bytes that steer the parser, mutated and cut documents, all sequences of line kinds at all indentations.",
    "no panic, bounded steps, value xor error, NewValueFromYaml and LoadFromYaml agree, the next parse gives what it gives alone.", "indentation state machines over several lines.", "51 s")
how("C10", "write a tree as YAML in every layout of a family (steps, compact marks, comments, anchors, flow, folded scalars, CRLF), with symbolic scalars, and parse it.",
    "the tree the text was written from.", "the layouts multiply; the tests hold five documents.", "44 s")
how("C11", "perform a history step on cached or pooled storage (create and free, clear, reset, failed parse) and then create or parse something with symbolic content.",
    "the same action without a history (the expected tree is known), plus `vxTouch`, which reads the value in every way.", "recycled storage needs a specific earlier content to show.", "6 s")
how("C12", "load the same symbolic bytes into a new value and into one of twelve kinds of earlier value.", "the new value.", "state left in the old value matters only for particular kind pairs.", "8 s")
how("C13", "sequences of operations with symbolic keys over hand-built, JSON-parsed, MessagePack and lazily decoded objects.", "an ordered map model (`lib_ops.go`).", "whether keys collide is symbolic, so each pattern of equal, unequal and case-equal names is covered.", "13 s")
how("C14", "as C13 with lists; every index is an unconstrained 64-bit integer.", "a slice model.", "index arithmetic at every value, including negative and huge ones.", "3 s")
how("C15", "lookups, typed reads with defaults and forced paths of up to three symbolic steps on symbolic trees.", "stepwise search in the description of the tree.", "missing steps, scalars in the way, numeric names on arrays.", "3 s")
how("C16", "set a symbolic scalar over twelve kinds of content directly, by key, by index; read it through every conversion.", "the value set; conversions from Go's own (ParseInt, FormatInt, float conversion).", "type-pair specific left-overs and full numeric ranges.", "11 s")
how("C17", "clone, copy or add, then mutate, clear, free and reuse one side; observe the other.", "the description of the tree before the change.", "sharing shows only for particular members and later actions.", "20 s")
how("C18", "pairs of symbolic values through Equal in both orders.", "content equality of the descriptions.", "numeric cross-kind comparison over all floats and integers.", "6 s")
how("C19", "put each shared constant into a tree in five ways and apply each operation to it or its tree.", "all five constants and a second tree holding them are unchanged.", "each operation needs its own guard; one missing guard corrupts every tree in the process.", "4 s")
how("C20", "merge trees with symbolic keys and values with every callback decision.", "a union written from the statement.", "which keys coincide is symbolic.", "6 s")
how("C21", "decode, then overwrite the input with other symbolic bytes, or free one of two values decoded from it; encode into buffers with content and spare capacity.", "the tree at decode time; the bytes of a first encoding.", "aliasing needs a later write.", "6 s")
how("C22", "store symbolic Go values of 60 types with SetValue, SetKeyvalue, SetIndexvalue.", "a second description produced beside the Go value (`lib_gov.go`).", "every type has its own reflect branch, pointer and nil variants multiply.", "16 s")
how("C23", "save and load through a file model, with earlier content, refusals, byte order marks, lengths around buffer sizes.", "the model's file content; a direct load of the bytes.", "truncation and read loops depend on lengths no test uses.", "6 s")
how("C24", "a symbolic instant through every setter and both binary formats.", "the instant, within 2 ms.", "MsgPack has three timestamp forms chosen by the instant.", "about 40 s")
how("C25", "parse from one format, read or do not read, write another, decode with the specification reader of that format.", "the tree denoted by the first document.", "lazily decoded escapes depend on what was read before.", "57 s")
how("C26", "convert values into Go destinations of every supported type, fresh and used.", "the tree; unmatched fields keep their symbolic earlier content.", "destination kind, earlier capacity and name case multiply.", "5 s")
how("C27", "two scripts of up to three calls on separate values, every order of steps, with a happens-before race detector over all memory cells, pool reuse across goroutines included.", "each script's result alone; no unordered conflicting access. Races are confirmed natively with `-race`.", "schedules and pool reuse.", "5 s")
