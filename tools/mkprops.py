#!/usr/bin/env python3
# One-off generator of properties.jsonl (kept so that the wording has one source).
import json
L="src/lib.rs"
D="json_derive/src/lib.rs"
def P(id,title,statement,over,text,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
props=[
P("P01","The parser accepts exactly the JSON texts, and never panics",
 "Parsing a string succeeds if and only if the string is a JSON text by the RFC 8259 grammar (the only exceptions are texts whose numbers overflow a 64-bit float and strings with unpaired surrogate escapes, which are rejected). In every other case an error value is returned; parsing never panics (nesting so deep that the stack is exhausted is outside this promise).",
 ["inputs"],"every UTF-8 string",
 "The tests try some 60 hand-picked texts; the accepted language is decided by the interplay of quote, bracket, comma, colon and whitespace bookkeeping over every byte sequence.",
 [L],[("Json::parse and the per-kind parsers",L),("valid_number",L)],["result of Json::parse / FromStr / json::decode::<Json>"]),
P("P02","String literals decode to exactly the characters they denote",
 "A JSON string literal parses to the sequence of characters it denotes: unescaped characters stand for themselves, the two-character escapes for their control or punctuation character, a four-digit hex escape in either letter case for that code point, and a high/low surrogate escape pair for the single supplementary character. A literal with a raw control character, an unknown escape, a malformed hex escape or an unpaired surrogate is an error.",
 ["inputs"],"every string literal, in value position and as an object key",
 "Tests sample a handful of escapes; there are 65536 hex escapes and a million surrogate pairs, each through its own arithmetic path.",
 [L],[("parse_string",L),("parse_hex_digit / encode_utf8",L)],["Json::String payload and object keys after parse"]),
P("P03","Parsed arrays and objects have exactly the structure of the text",
 "Parsing an array text gives an array whose elements, in order, are the values of its element texts, and parsing an object text gives for each distinct key exactly the values given for it, in text order with the last one as the key's current value, whatever the nesting, whitespace or the punctuation characters inside strings. No element or member is lost, duplicated, merged or moved.",
 ["inputs"],"every JSON array or object text, at any nesting",
 "The splitting of a container into element texts depends on every byte of arbitrarily nested content; tests use a few fixed documents without brackets, commas, quotes or backslashes inside strings.",
 [L],[("parse_array / parse_object",L),("object_insert",L)],["Json value returned by parse"]),
P("P04","Number literals parse to the correctly rounded 64-bit float",
 "A JSON number literal parses to the finite 64-bit float closest to the decimal value it denotes, honouring sign, fraction and exponent, and the result does not depend on where in a document the literal appears. A literal that is too large for a finite float is an error.",
 ["inputs"],"every number literal",
 "Tests try a few literals; the literal space is unbounded and digit/sign/exponent combinations interact.",
 [L],[("parse_number",L),("valid_number",L)],["Json::Number payload after parse"]),
P("P05","Serialization always yields valid, ASCII-only, deterministic JSON",
 "Serializing any JSON value yields a valid JSON text of printable ASCII characters only, with every character needing it escaped. Equal values serialize to identical text with object keys in ascending order, regardless of the order in which the members were inserted or of the map's internal layout.",
 ["inputs","histories"],"every JSON value and every insertion order of its members",
 "Tests compare a few fixed outputs; validity has to hold for every character, and determinism for every insertion order and hash layout.",
 [L],[("ToString for Json",L),("escape / hex",L)],["Json::to_string, json::encode"]),
P("P06","Serialize-then-parse gives back an equal value",
 "For every JSON value with finite numbers, parsing its serialization gives a value equal to it, including the order and multiplicity of duplicate keys.",
 ["inputs"],"every JSON value",
 "The round trip composes escaping with unescaping and joining with splitting for every character and shape; tests round-trip no string with brackets, quotes or escapes in containers.",
 [L],[("ToString for Json",L),("Json::parse",L)],["Json::to_string followed by Json::parse"]),
P("P07","Typed encode-then-decode gives back the original value",
 "For every value of a supported type (strings, booleans, integers of magnitude up to 2^53, finite floats, options of non-optional types, vectors, pair vectors and maps of supported types, and nestings of these), decoding its encoding as the same type succeeds and gives an equal value; for maps and pair vectors up to the order between different keys.",
 ["inputs"],"every value of every supported type within the stated numeric range",
 "Tests round-trip a few constants per type.",
 [L],[("ToJson/FromJson implementations",L)],["json::encode then json::decode"]),
P("P08","Decoding into the wrong kind is an error, never a panic or a guess",
 "Decoding a JSON value as a type of a different kind (string, number, boolean, array, object) returns a conversion error, also when the mismatch is in any nested element, member value or key; null decodes as the absent option and any other value as a present option exactly when its content decodes. Decoding never panics and never silently drops a failing element.",
 ["inputs"],"every pair of JSON value and target type",
 "Tests only check successful conversions of matching kinds.",
 [L],[("FromJson implementations",L)],["json::decode, Json::convert, json::get"]),
P("P09","Reading by path returns exactly the value the path denotes",
 "Reading by a path string returns the value reached by following its components (plain component: current value of that object key; #n: array element n; with the documented escapes), and an error whenever some component denotes nothing, has the wrong container kind, or the path is malformed or empty. It never changes the document and never panics.",
 ["inputs"],"every document and every path string",
 "Tests follow about ten fixed paths; path syntax and document shape combine freely.",
 [L],[("parse_path",L),("Path::find / Finder::find",L)],["Json::get, json::get"]),
P("P10","Writing by path takes effect there, and nowhere else",
 "Writing by a syntactically valid path whose indexes are of practical size always succeeds; afterwards reading the same path gives the written value, which is then the only value of its key, missing containers on the way have been created (arrays padded with null up to the index, values of another kind replaced), and everything not on the path is unchanged. A malformed or empty path is an error and leaves the document unchanged.",
 ["inputs"],"every document, path string and written value",
 "Tests check a few creations; the frame condition (nothing else changes) and all kind/index combinations are not sampled.",
 [L],[("parse_path",L),("Path::update / Finder::update",L)],["Json::set, json::set, followed by reads"]),
P("P11","Deleting by path removes exactly that value and returns it",
 "Deleting by path removes the denoted member (with all values of its key) or array element (later elements move up by one), returns the value that reading the path would have given, and leaves everything else unchanged. It is an error, with the document unchanged, exactly when reading the path is an error.",
 ["inputs"],"every document and path string",
 "Tests delete a few fixed members; frame, shift and error atomicity hold over all documents and paths.",
 [L],[("Path::discard / Finder::discard",L)],["Json::del, json::del"]),
P("P12","Every key is addressable through the documented path escapes",
 "Escaping a key as documented (each dot preceded by a backslash, and one extra leading backslash when the key starts with # or a backslash) gives a path component that reads, writes and deletes exactly that key, for every non-empty key as last component, and for every key not ending in a backslash as inner component.",
 ["inputs"],"every object key",
 "Tests use three escaped keys; escape handling depends on each character and its neighbours.",
 [L],[("parse_path",L)],["Json::get / set / del with escaped keys"]),
P("P13","Object operations behave as an insertion-ordered multimap",
 "Over any sequence of operations on an object: insert makes the given value the only value of its key, append adds it after the existing values of the key, delete removes the key with all values (and is harmless on a missing key), and merging lookup returns all values of a key oldest first, while plain lookup returns the latest. Other keys are unaffected, and on a non-object every one of these operations is an error that changes nothing.",
 ["histories","inputs"],"every sequence of object operations with every choice of keys and values",
 "Tests run two short fixed sequences with one duplicate; ordering only shows with three or more values or mixed sequences.",
 [L],[("object_insert / add_option",L),("index_and_merge / delete",L)],["Json::insert, append, delete, index_and_merge, get"]),
P("P14","Array operations behave as a growable list and report bad indexes",
 "Over any sequence of operations on an array: push adds at the end, replace changes exactly the indexed element, and remove deletes exactly the indexed element and moves later ones up by one. An index out of range, or a value that is not an array, gives an error and changes nothing; no index makes an operation panic.",
 ["histories","inputs"],"every sequence of array operations with every index and value",
 "Tests run one fixed sequence and no out-of-range remove.",
 [L],[("push / replace / remove",L)],["Json::push, replace, remove"]),
P("P15","Derived encoding emits each unignored field under its key",
 "Encoding a struct with the derived encoder gives an object with exactly one member per field not marked ignored, named by the field's key attribute or else by the field name, holding the encoding of the field's value. This holds for every field value and for nested, empty and generic structs (lifetime and type parameters, with trait or lifetime bounds, defaults or where clauses on them).",
 ["inputs","programs"],"every value of the derived structs considered",
 "The existing tests contain no derived struct at all.",
 [D,"json_derive/parse/src/lib.rs","json_derive/parse/src/field.rs","json_derive/parse/src/meta.rs","json_derive/quote/src/lib.rs"],[("json_encode derive",D)],["json::encode of a derived struct"]),
P("P16","Derived decoding reads each field from its key, else errors",
 "Decoding with the derived decoder succeeds exactly when the value is an object in which every unignored field's key is present with a current value that decodes as the field's type; each field then holds that value, ignored fields hold their default, and extra members are disregarded. In every other case it returns an error and never panics.",
 ["inputs","programs"],"every JSON value, for the derived structs considered",
 "The existing tests contain no derived struct at all.",
 [D,"json_derive/parse/src/lib.rs","json_derive/parse/src/field.rs","json_derive/parse/src/meta.rs","json_derive/quote/src/lib.rs"],[("json_decode derive",D)],["json::decode to a derived struct"]),
P("P17","Indexing agrees with lookup and panics exactly when it finds nothing",
 "Indexing a JSON value by key or position, immutably or mutably, gives exactly the value lookup by that key or position finds, and panics exactly when lookup finds nothing. A write through the mutable index changes that value and nothing else.",
 ["inputs"],"every JSON value and every key or position",
 "Tests index a few present members and never observe a panic or the rest of the document.",
 [L],[("Index / IndexMut",L)],["js[key], js[i]"]),
P("P18","Typed paths, macros and string paths have the same meaning",
 "Finding, updating or discarding with a typed path (a sequence of keys and positions, also through the macros) gives the same result and the same document as reading, setting or deleting with the equivalent path string; building a value with the object and array macros equals building it step by step.",
 ["inputs"],"every document and every sequence of keys and positions",
 "Tests use fixed two-step paths in one direction.",
 [L],[("Path / Finder",L),("find! update! discard! path! object! array!",L)],["Json::find, find_mut, update, discard vs get, set, del"]),
P("P19","Number conversions are exact where exact is possible",
 "Converting an integer or float to JSON gives the nearest 64-bit float (so exactly that number whenever it is representable), and converting a JSON number to an integer or float type gives exactly that number whenever the target type can represent it.",
 ["inputs"],"every value of every built-in numeric type and every JSON number",
 "Tests convert a few small constants.",
 [L],[("number_imp!",L)],["ToJson / FromJson of numeric types"]),
P("P20","Maps and pair lists decode every member exactly once",
 "Decoding an object as a pair list gives one pair per value of every key, the values of one key in document order; decoding it as a map gives one entry per key holding the key's last value. Encoding a pair list keeps repeated keys in list order; a member whose key or value does not convert makes the whole decode an error.",
 ["inputs"],"every object, with any multiplicity of keys, and every pair list",
 "Tests decode objects with at most two values per key and only string keys.",
 [L],[("Vec<(K,V)> / HashMap<K,V> conversions",L),("object_insert",L)],["json::decode to Vec<(K,V)> / HashMap<K,V>, json::encode of Vec<(K,V)>"]),
P("P21","Errors name their cause, and a failed operation changes nothing",
 "Every operation that fails does so with an error of the kind that describes the cause: a text that does not parse gives a parse error (outside arrays and objects, that of the value its first character announces, or invalid JSON where something follows a complete value), an ill-formed path string a path syntax error, a path through an absent key a missing key, past the end of an array an index out of range, through a value of another kind an invalid value kind, a value that does not convert a conversion error. The error's text begins with the name of its kind, and the value operated on is unchanged.",
 ["inputs"],"every text, document, path, key, position and target type",
 "Tests only see that some call failed; which of the dozen error sites answers depends on the whole input, and no test reads the kind or the value after a failure.",
 [L],[("Error / ErrorKind",L),("Finder",L),("parse_path",L)],["the kind and text of every returned Error; the document after a failed call"]),
P("P22","Values are equal exactly when they hold the same, and clones are independent",
 "Two JSON values compare equal exactly when they are of the same kind and hold the same: equal numbers, the same characters, equal elements in the same order, and for objects the same keys each with equal values, earlier values included, however the members came about. A clone is equal to its original, and changing one does not change the other.",
 ["inputs","histories"],"every pair of JSON values, built by any history",
 "Tests compare fixed values, mostly equal ones; a comparison that overlooks a difference passes all of them.",
 [L],[("Json: PartialEq, Clone",L),("ToJson / FromJson for Json",L)],["==, !=, clone, to_json, convert"]),
P("P23","All ways of reading, writing and editing text agree",
 "Parsing a text through FromStr or as a decode to JSON gives what Json::parse gives, and decoding to another type gives what parsing and converting gives; encoding a value gives the text of its JSON value; reading, setting and deleting a path in a text gives what parsing the text, doing the same on the value and serializing it gives, and fails exactly when one of these fails.",
 ["inputs"],"every text, path and value",
 "Tests call each entry point on one or two texts and never compare them with each other.",
 [L],[("encode / decode / get / set / del",L),("FromStr for Json",L)],["json::encode, decode, get, set, del; str::parse"]),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in props))
for p in props: assert len(p["title"])<=80,(p["id"],len(p["title"]))
