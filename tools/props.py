"""What each check covers: harness crate, bounds (as text), what lies outside."""
ASSUME = [
 'LLVM IR produced by rustc 1.99.1 (release, overflow checks on for the crate), 64-bit target; standard library compiled from source in the same module',
 'SipHash is replaced by the constant 0: every key goes through the full key comparison, bucket order is insertion order',
 'allocation always succeeds; memory is object-based and bounds-checked',
 'z3 4.8.12 decides the queries; branch conditions on one byte are decided by truth tables which z3 confirms',
 'counterexamples are replayed against a native debug build of /repo before they are reported',
]
FLOATTEXT = 'float and integer text contract: f64::from_str on a text with symbolic characters accepts exactly decimal notation and gives one unknown non-NaN double per text; f64 Display of a symbolic double gives an unknown text that from_str reads back as the same double; a symbolic integer of more than 16 bits prints likewise'
P = PROPS = {}
P['P01'] = dict(crate='harness', bounds='all ASCII texts up to 7 characters (9 thorough); all texts of up to 4 Unicode characters; 29 templates with 1 to 8 free characters: members, nesting, blanks, escapes, surrogate pairs, numbers, words, 30 and 300 levels of arrays, 16 of objects, 42 elements, 300-character strings', outside='longer texts other than the templates; nesting deep enough to exhaust the stack', assume=[FLOATTEXT])
P['P02'] = dict(crate='harness', bounds='literals of up to 6 ASCII characters (7 thorough), up to 4 Unicode characters, \\u escapes with 4 free characters, surrogate pairs with up to 6 free characters (8 thorough), the same as array element, key and member value', outside='longer literals other than the templates')
P['P03'] = dict(crate='harness', bounds='all JSON texts among the ASCII texts up to 7 characters; 20 templates with 1 to 6 free characters: nested arrays and objects, up to 5 members with equal keys, punctuation in strings, blanks, 62 elements, 25 members, 20 and 300 levels', outside='larger documents', assume=[FLOATTEXT])
P['P04'] = dict(crate='harness', bounds='all number texts up to 8 characters, templates of 11 and 25 characters, each in 5 positions; 60 boundary literals, 1e[+-]dd and d.d with the standard library conversion executed', outside='longer literals; correctness of the standard library conversion itself', assume=[FLOATTEXT])
INTTEXT = 'integers of more than 16 bits with symbolic value print as an unknown text which f64::from_str reads back as the double nearest to the integer'
HASH = 'documents: all trees of depth 2 with up to 2 children of every kind (null, both booleans, free number, free string, arrays, objects with free one-letter keys that may repeat) and three larger ones with repeated keys, escaped keys and 13 elements'
P['P05'] = dict(crate='harness', bounds='strings of up to 2 Unicode characters (3 thorough) and 4 ASCII characters; all trees of depth 3 with up to 2 children of a fixed set of leaves; keys of any character, 4 equal keys, 3 members in all insertion orders (4 thorough) and two map sizes, 29 members, 24 levels, 120-character strings; any 64-bit float, non-finite ones included', outside='larger values; the digits the standard library prints for a float (a table of 40 floats runs the real conversion)', assume=[FLOATTEXT])
P['P06'] = dict(crate='harness', bounds='the values of P05 with finite numbers', outside='larger values; the digits the standard library prints and reads for a float (a table of 40 floats runs the real conversions)', assume=[FLOATTEXT])
P['P07'] = dict(crate='harness', bounds='all 17 primitive types at full width (integers up to 2^53 in magnitude), strings of up to 3 ASCII or 2 Unicode characters (4 and 3 thorough), options, vectors of up to 3 elements, pair vectors and maps of up to 3 members, 12 nested types, 40 elements; 50 boundary numbers with the real text routines', outside='larger containers and other nestings; the digits the standard library prints and reads', assume=[FLOATTEXT])
P['P08'] = dict(crate='harness', bounds='18 primitive and 14 composite target types, on values of every kind with any content, all trees of depth 2 with up to 2 children (3 thorough), lists and objects of 2 to 4 members (6 thorough) with a free member, mismatches three levels deep, keys of up to 5 free characters (7 thorough) for integer, float, bool and char keys', outside='other target types; larger documents', assume=[FLOATTEXT])
P['P09'] = dict(crate='harness', bounds=HASH + '; all path texts up to 4 ASCII characters (5 thorough), one Unicode character, 11 longer templates, paths of 2 and 3 components from a menu of 12 (4 thorough); string and bracket indexing, json::get on texts', outside='longer paths other than the templates; a plus sign before an index; other documents')
P['P10'] = dict(crate='harness', bounds=HASH + '; all path texts up to 3 ASCII characters (4 thorough), one Unicode character, 10 longer templates with indexes up to 219, paths of 2 and 3 components from a menu of 12 (4 thorough), two writes in a row; Json::set and json::set', outside='longer paths other than the templates; a plus sign before an index; indexes too large to allocate; other documents')
P['P11'] = dict(crate='harness', bounds=HASH + '; all path texts up to 4 ASCII characters (5 thorough), one Unicode character, 7 longer templates, paths of 2 and 3 components from a menu of 12 (4 thorough), two deletions in a row; Json::del and json::del', outside='longer paths other than the templates; a plus sign before an index; other documents')
P['P12'] = dict(crate='harness', bounds='all keys of up to 3 ASCII characters (4 thorough) or one Unicode character (2 thorough) as last component, up to 2 (3) as inner component, up to 4 (6) in an object made by writing; a 40-character template with 5 free characters', outside='longer keys')
P['P13'] = dict(crate='harness', bounds='all sequences of 5 operations on an empty object (6 thorough), 4 on one with repeated keys (5 thorough), 3 on objects of 12 and 28 members (around table growth), keys from a set of 3 and as free texts of up to 2 characters, 6 appends to one key (9 thorough), lookups of every key in all trees of depth 2, values of every kind, non-objects of every kind', outside='longer sequences', assume=[INTTEXT])
P['P14'] = dict(crate='harness', bounds='all sequences of 5 operations on an empty array (7 thorough), 4 on one of three elements (5 thorough), 3 on nine elements (4 thorough), one on 40 elements; any 64-bit index; values of every kind; non-arrays of every kind', outside='longer sequences', assume=[INTTEXT])
P['P17'] = dict(crate='harness', bounds=HASH + '; keys of up to 4 ASCII characters or one Unicode character, any 64-bit position, two steps; owned and borrowed keys, reading and writing', outside='longer keys; other documents')
P['P18'] = dict(crate='harness', bounds=HASH + '; typed paths of 1 to 4 components from a menu of 10 (5 thorough), free keys of up to 2 characters in 1 to 3 components, key texts of up to 4 characters in typed paths, 5 free components; all macros; objects and arrays of up to 5 members built in three ways', outside='longer paths; other documents')
P['P19'] = dict(crate='harness', bounds='every value of all 12 integer types, f32 and f64, both ways (one query per binary exponent)', outside='NaN payloads')
P['P20'] = dict(crate='harness', bounds='objects of up to 7 members (8 thorough) with one-letter keys in every pattern of repetition, up to 3 members with any ASCII key (4 thorough), 2 with any Unicode key (3), 30 members; pair lists of up to 6 (7 thorough); keys of type String, char, bool, integers; one non-converting member in every position of 4', outside='larger objects', assume=[INTTEXT])
D = 'struct definitions (40 of them the grid of every combination of field attributes: ignored or not, key attribute or not, doc comments and other attributes before, between and after, 1 to 4 fields) with every supported form: field and key names (raw identifiers, escaped, raw, empty and non-ASCII keys, swapped and doubled keys), ignored fields, type and lifetime parameters with bounds, defaults and where clauses, nested, recursive, empty and local structs, visibilities, 25 fields'
DOUT = 'other struct definitions; these do not compile with the macros and are outside the statement: const generics, higher-ranked bounds, attributes or empty bounds on parameters, where clauses on other than parameters, fields of pointer or trait object reference type'
P['P21'] = dict(crate='harness', bounds='all ASCII texts of up to 5 characters (6 thorough), 2 Unicode characters, templates with damaged objects, arrays, strings, numbers, 20 levels, 62 elements; all path texts of up to 3 ASCII characters (4 thorough) on nine documents, paths from a menu of 12 on all trees of depth 2, paths of up to 40 components wrong at any place, any index; all object and array operations with any 64-bit position; 7 target types on values of every kind', outside='the message after the kind; which of several errors in one array or object text is reported; larger inputs', assume=[FLOATTEXT])
P['P22'] = dict(crate='harness', bounds='pairs of values of every kind with any float, text of up to 3 ASCII or 2 Unicode characters; all pairs of trees of depth 1 with 2 members of any kind (3 thorough); all pairs of objects with up to 3 values under 2 keys; objects built in every order with removed members and different capacities; arrays of 250, texts of 300 characters, objects of 40 keys with 3 values each, 60 values of one key, 120 levels, with the difference anywhere; clones of all trees of depth 2, changed in four ways', outside='larger values other than these', assume=[])
P['P23'] = dict(crate='harness', bounds='all ASCII texts of up to 5 characters (6 thorough), 2 Unicode characters, a blank and escape template; all path texts of up to 2 ASCII characters on nine texts, longer ones by template, texts with 3 free characters with paths from a menu of 12; 9 kinds of values encoded, pair lists of up to 100', outside='larger texts; indexes above 40 in set', assume=[FLOATTEXT])
P['P15'] = dict(crate='harness_derive', derive=True, bounds='75 ' + D + '; every field value symbolic: flags, texts of up to 2 Unicode characters (3 thorough), numbers at full width, lists and maps of up to 2', outside=DOUT, assume=[FLOATTEXT])
P['P16'] = dict(crate='harness_derive', derive=True, bounds='75 ' + D + '; documents: objects of up to 3 members (5 thorough) with free one-letter keys and values of every kind; each encoding with any member dropped, replaced by any tree of depth 1, doubled, renamed, or with a free member added; nested errors; every other kind', outside=DOUT + '; larger documents', assume=[FLOATTEXT])

BIG = {'P01': '; sizes just below, at and above 100 to 1025 elements, members, equal keys, blanks, characters, digits, 66000-character strings, 301 and 400 levels',
 'P02': '; literals of 100 to 1025 characters with a free character at the end, of 66000 characters',
 'P03': '; sizes around 100 to 1025 elements, members, equal keys and blanks, 301 and 400 levels',
 'P04': '; literals of 100 to 400 digits',
 'P05': '; 100 and 257 keys, sizes around 100 to 1025 elements, equal keys, characters and levels, 66000 characters',
 'P06': '; the big sizes of P05',
 'P07': '; containers of 100 to 1025 elements',
 'P08': '; containers of 100 to 1025 elements with one that does not convert anywhere',
 'P09': '; paths down hundreds of levels, arrays and objects of hundreds of members',
 'P10': '; paths down hundreds of levels, arrays and objects of hundreds of members',
 'P11': '; paths down hundreds of levels, arrays and objects of hundreds of members',
 'P12': '; keys of up to 300 characters',
 'P13': '; objects and queues of equal keys of some hundred members',
 'P14': '; arrays of up to 1025 elements',
 'P17': '; arrays and objects of hundreds of members',
 'P18': '; paths down hundreds of levels',
 'P20': '; pair lists of 100 to 1025 pairs'}
for k, v in BIG.items(): P[k]['bounds'] += v
# all of them again in the state that other calls leave behind, and on whole words
STATE = '; the same after earlier calls on other inputs, failed ones included (up to 1100 of them), since a result must not depend on what was done before'
for k in ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P17', 'P18', 'P20', 'P21', 'P22', 'P23']: P[k]['bounds'] += STATE
for k in ['P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P17', 'P18', 'P20', 'P21', 'P22', 'P23']: P[k]['bounds'] += '; words and phrases of up to 16 free characters as text, key or path'
for k in ['P01', 'P03', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P13', 'P14', 'P17', 'P18', 'P20', 'P21', 'P22', 'P23']: P[k]['bounds'] += '; uniform values of 1 to 17 equal parts of every kind with at most one exception'
for k in ['P09', 'P11', 'P13', 'P14', 'P18']: P[k]['bounds'] += '; arrays and objects of 29 to 300 parts shrunk one by one to nothing'
P['P07']['bounds'] += '; map and pair keys of up to 3 free characters'
P['P10']['bounds'] += '; writes up to index 1999 past the end'
