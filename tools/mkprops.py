#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
H="zzzjson.h"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("C01","The parser accepts exactly the JSON language",
 "Parsing a text returns true if and only if the text, up to its terminating NUL (or the given length), is one RFC 8259 JSON value surrounded by optional space, tab, CR or LF; \\u escapes that form an unpaired surrogate are refused, and bytes 0x80-0xFF inside strings are opaque. The three entry points (in place, length-delimited, copying) give the same verdict, in every nesting context and whatever the target value held before, and the length-delimited one never depends on bytes beyond the given length.",
 ["inputs"],"Every NUL-free byte string, every parse entry point, every prior content of the target value.",
 "The conformance suite is a fixed list of about two hundred files; acceptance is a statement about every byte string in every parser state.",
 [H],[("character-driven parser","zj_ParseFast, zj_ParseLen, zj_Parse"),("lexers","zj_consumeStr, zj_consumeNum, zj_consumeTrue/False/Null, zj_consumeHex")],
 ["return value of Parse / ParseLen / ParseFast"])
p("C02","A parsed document is exactly the document in the text",
 "After a successful parse, the value tree contains exactly the values of the text: same nesting, same order of elements and members, duplicates kept, and every key, string and number with its exact source spelling. Serialising it yields the source text with only the insignificant whitespace removed, serialising any sub-value yields that sub-value's slice, and walking it by iteration or by index yields the same document.",
 ["inputs"],"Every JSON text, of every shape and size, and every value inside it.",
 "Round-trip tests compare a few dozen documents; fidelity must hold for every combination of value kinds, nesting and sizes around every internal buffer boundary.",
 [H],[("tree construction","zj_ParseFast"),("serialiser","zj_Stringify, zj_appendStr, zj_appendChar"),("traversal","zj_Begin, zj_Next, zj_ArrayGet, zj_SizeOf, zj_Type")],
 ["Stringify","Begin/Next/ArrayGet/SizeOf/Type/GetKeyFast/GetStrFast/GetNumFast"])
p("C03","A failed operation changes nothing",
 "Whenever an operation reports failure (a parse of an invalid text, a setter given an invalid string, key or number, an add, delete, move, set or copy whose target or source has the wrong kind, is empty or does not exist), every value that existed before the call, including the target, its key, its children, its position in its parent and the source operand, reads exactly as before and remains fully usable. Failure is reported in exactly those cases, and success is never reported without the effect having happened.",
 ["inputs","histories"],"Every document state reachable by any history of calls, and every failing call in it.",
 "Unit tests check return values of failing calls on fresh values; they do not compare the whole document before and after for every prior state and failure point inside a text.",
 [H],[("snapshot and restore of the target on a failed parse","zj_ParseFast (src_node)"),("validation before mutation","zj_Set*, zj_ObjAdd*, zj_ArrayAdd*, zj_Move")],
 ["full observation of all live values before and after the failing call"])
p("C04","Containers behave as sequences under every edit history",
 "Arrays and objects behave as ordered sequences: add appends at the end, delete and move-out remove exactly the designated position and close the gap, setting or re-parsing an element replaces it in place without disturbing its key or neighbours, and emptying a container leaves it reusable. After every history of edits, size, iteration from the first to the last element, indexed access and serialisation of every reachable value agree with that sequence.",
 ["histories"],"Every finite sequence of public mutating calls, on documents that were parsed, built or copied.",
 "Corruption of the child list usually shows only some operations later (for example an append after a particular deletion); tests run a handful of short fixed sequences.",
 [H],[("doubly linked child list with tail pointer and length","struct zj_node; zj_ObjAdd*, zj_ArrayAdd*, zj_Move, zj_Set, zj_SetFast")],
 ["SizeOf, ArrayGet, Begin, Next, Stringify after every call"],
 [("child list","abstract sequence of children","struct zj_node Next/Prev/End/Father/Len")])
p("C05","Object lookup finds exactly the first member with that key",
 "Looking up (or deleting) a key in an object designates the first member in order whose key, in its stored escaped spelling, is byte-for-byte equal to the requested key, and nothing if there is none; a proper prefix, an extension, a differently escaped spelling or a different case never matches. The length-delimited lookup agrees with the NUL-terminated one, and deleting one of several duplicates uncovers the next.",
 ["inputs","histories"],"Every object content (empty keys, duplicates, keys that are prefixes of each other, any bytes and length) and every requested key.",
 "Tests look up one or two short ASCII keys in tiny objects.",
 [H],[("key comparison","zj_strIsEqual, zj_strIsEqualLen"),("first-match scan","zj_ObjGet, zj_ObjGetLen, zj_ObjDel")],
 ["ObjGet, ObjGetLen, ObjDel and the key/content of the value returned"])
p("C06","Copies are deep and independent",
 "Copy, Set, array add and object add (the non-Fast forms) install a structurally identical deep copy, in the allocator of the receiving value: afterwards no edit of the original, of the copy or of anything inside either is visible through the other, the source operand is unchanged and keeps its place, and releasing the source's allocator does not affect the copy. This includes copying a value into itself, into its own descendant or from its own ancestor.",
 ["histories"],"Every source document, every destination, and every continuation of edits and releases after the copy.",
 "Aliasing shows only when both sides are edited further, in particular orders and at particular depths; tests copy once and serialise once.",
 [H],[("iterative deep copy","zj_ValueCopyFrom, zj_Copy"),("copying setters","zj_Set, zj_ObjAdd, zj_ArrayAdd")],
 ["all observations of source and copy after later edits and releases"])
p("C07","Fast and Move transfer a value exactly once",
 "Move detaches a value from its parent and leaves it a complete standalone value with its key; the Fast add and set operations transfer the source value itself: it disappears from its previous parent, appears exactly once at the destination, the source handle becomes empty, and other handles into the transferred content keep working at the new place. An array element has no key, an object member keeps its key, and setting a value that already exists keeps the destination's own key and position.",
 ["histories"],"Every pair of source and destination (same or different parents, siblings, descendants of the destination) in every reachable document.",
 "The effect on the old parent's list and on remaining handles depends on the position and the previous edits; tests move from one fixed position.",
 [H],[("unlinking","zj_Move"),("transfer","zj_SetFast, zj_ObjAddFast, zj_ArrayAddFast")],
 ["Stringify/SizeOf/iteration of old parent, new parent, source handle and aliases"])
p("C08","String and key setters accept exactly valid JSON string bodies",
 "The string and key setters that take already escaped text (with and without explicit length, copying or Fast) succeed if and only if the given bytes are a valid JSON string body (no raw quote or control byte, only the nine legal escapes, no unpaired surrogate), and then the stored string or key is exactly those bytes. They agree with the parser: a body is accepted by a setter if and only if the parser accepts it between quotes.",
 ["inputs"],"Every byte string, every length, every setter of the family, on empty and non-empty values.",
 "Tests try about twenty strings; the defect classes live in single bytes, single code points and truncation points.",
 [H],[("string checker","zj_checkStr, zj_checkStrLen"),("setters","zj_SetStr*, zj_SetKey*")],
 ["return value, GetStr/GetStrFast/GetKey/GetKeyFast, Stringify"])
p("C09","Escaping setters accept arbitrary bytes and lose nothing",
 "The escaping string and key setters accept every byte string (the length-taking forms also bytes equal to NUL), produce a valid JSON string body, and unescaping the stored text returns exactly the original bytes. Bytes that need no escaping are stored as they are.",
 ["inputs"],"Every byte value at every position, every length.",
 "Tests escape a few sample strings, never all byte values or lengths.",
 [H],[("escape table","zj_escapeChars, zj_escapeStr, zj_escapeStrLen"),("setters","zj_SetStrEscape, zj_SetStrLenEscape, zj_SetKeyEscape, zj_SetKeyLenEscape")],
 ["return value, GetStr, GetUnEscapeStr, GetKey, GetUnEscapeKey, Stringify"])
p("C10","Unescaping yields the correct UTF-8 of every string",
 "For every stored string or key, the unescaping getters return the bytes denoted by the JSON text: each short escape its character, each \\uXXXX (either hex case) the UTF-8 encoding of its code point, each surrogate pair the 4-byte UTF-8 encoding of the combined code point, everything else unchanged, and a NUL at the end. The raw getters return the stored spelling unchanged.",
 ["inputs"],"Every valid string body: all 63488 non-surrogate code units, all 1048576 surrogate pairs, every mixture and length.",
 "Tests decode a few code points; encoding boundaries and pair arithmetic need the whole domain.",
 [H],[("decoder","zj_unEscapeStr, zj_consumeHexForUnEscape, zj_addUTF8")],
 ["GetUnEscapeStr, GetUnEscapeKey, GetStr, GetKey, GetStrFast, GetKeyFast"])
p("C11","Number setters accept exactly the JSON number grammar",
 "The setters that take a number as text (with and without explicit length, copying or Fast) succeed if and only if the text is exactly one RFC 8259 number with nothing before or after it, and then the stored number is exactly that spelling. They agree with the parser on every text without whitespace.",
 ["inputs"],"Every byte string and length, all four setters, on empty and non-empty values.",
 "Tests sample a dozen numbers.",
 [H],[("number checker","zj_checkNum, zj_checkNumLen"),("setters","zj_SetNumStr, zj_SetNumStrLen, zj_SetNumStrFast, zj_SetNumStrLenFast")],
 ["return value, GetNumStr, GetNumFast, Stringify"])
p("C12","Numeric values survive setting and getting",
 "Setting an int, long, long long or finite double and reading it back with the same type returns the identical number (doubles bit for bit), the stored spelling is a valid JSON number denoting it, and non-finite doubles are refused. Reading a number returns the value of that number's own spelling, at any length and independently of whatever surrounds it in memory or in the text: the integer getters are exact for integer spellings in range and the double getters return the nearest double.",
 ["inputs"],"All ints, longs, long longs, all finite and non-finite doubles; all number spellings of any length in any context.",
 "The value domains are 2^32 to 2^64; tests use a few values and never number spellings adjacent to other digits or longer than a line.",
 [H],[("conversion","zj_strToInt/Long/LongLong/Double, zj_intToStr/longToStr/longLongToStr/doubleToStr"),("API","zj_SetInt/SetLong/SetLongLong/SetDouble/SetNum, zj_GetInt/GetLong/GetLongLong/GetDouble/GetNum")],
 ["GetInt, GetLong, GetLongLong, GetDouble, GetNum, GetNumStr, Stringify"])
p("C13","Reading is typed and has no side effect",
 "Every value is exactly one of empty, null, bool, number, string, array, object; each typed getter returns data if and only if the value has its type and otherwise reports absence, size is zero for non-containers, keys are reported exactly for values that have one, iteration and indexing return absence past the end. No sequence of reads, through any number of handles, changes any value, and every read repeated later without an intervening edit returns the same answer, reflecting edits made through any other handle.",
 ["histories","inputs"],"Every value kind, every getter, every interleaving of reads with edits through other handles.",
 "Tests call matching getters on matching types, once.",
 [H],[("getters","zj_Get*, zj_IsNull, zj_Type, zj_SizeOf, zj_Begin, zj_Next, zj_ArrayGet, zj_ObjGet")],
 ["all getters on all live handles"])
p("C14","Every constructible document serialises to valid JSON that reads back equal",
 "Whatever sequence of successful API calls built a value, serialising it produces valid condensed JSON (the empty text for an empty value), and parsing that text yields a value that is equal in every observation and serialises to the identical text. No API call can put into a document content that does not survive serialisation and re-parsing.",
 ["histories","inputs"],"Every value reachable by any history of parses, setters (strings, keys, numbers, escaped text), adds, moves, copies and deletions.",
 "Closure is a statement about all histories; tests serialise a few hand-built documents.",
 [H],[("validation in setters","zj_checkStr, zj_checkNum"),("serialiser","zj_Stringify"),("parser","zj_ParseFast")],
 ["Stringify, Parse of the result, Stringify again, full traversal"])
p("C15","Allocators never lose, overlap, or free memory that is in use",
 "All memory handed out through an allocator (values, documents, and every string or number a getter or serialiser returned) stays valid and unchanged by later operations until that allocator is released, no operation writes or reads outside memory it owns or was given, and releasing the allocator returns every block obtained for it exactly once. This holds for all sizes and mixes of requests.",
 ["histories","inputs"],"Every history of calls and every sequence of request sizes around and beyond every block boundary.",
 "Overlaps and overruns depend on exact request sizes relative to remaining block space; tests only compare allocation counts at exit.",
 [H],[("arena with geometric growth","zj_NewAllocator, zj_allocatorAlloc, zj_allocatorAppendChild, zj_ReleaseAllocator, C++ constructor/destructor"),("growing string","zj_newString, zj_appendStr, zj_appendChar")],
 ["malloc/free calls of the library, contents of all previously returned buffers, address sanitizer"],
 [("arena","list of blocks with fill position","struct zj_Allocator, struct zj_aNode")])
p("C16","Allocators are isolated from each other, in sequence and across threads",
 "Operations on values of one allocator behave the same whatever happens with other allocators: creating, using, or releasing another allocator before, between or concurrently (on another thread) changes no result and no document. Threads that use disjoint allocators need no synchronisation.",
 ["schedules","histories"],"Every interleaving of calls and releases over several allocators, sequential or concurrent.",
 "The tests are single-threaded and use one allocator at a time; hidden shared state shows only under specific interleavings.",
 [H],[("no shared mutable state between allocators","zj_Allocator, file-scope variables")],
 ["all results of interleaved histories; thread sanitizer"])
p("C17","All C and C++ API surfaces agree",
 "The long-name C API, the short-name API, the C++ member functions and the zzzjson.hpp wrapper classes expose the same operations with the same results: the same history of calls issued through any of them gives the same return values, documents and type codes, when compiled as C or as C++. Stack or heap construction and destruction of the C++ allocator objects is equivalent to creating and releasing one.",
 ["programs","histories"],"Every operation and every history, through every surface.",
 "The test-suite uses one surface; a wrapper that forwards to the wrong function or swaps arguments compiles and stays unnoticed.",
 [H,"zzzjson.hpp"],[("short names and methods","zzzjson.h zj_API_MODE, struct zj_Value methods"),("wrapper","zzzjson.hpp Allocator, Value")],
 ["the observations of C01-C15 through each surface"])
p("C18","Memory and build configuration never changes results",
 "For every documented configuration (initial allocator and string sizes, growth factor above one, size type, memory mode including user-supplied allocation functions, branch-hint mode) every history of calls gives the same results and documents as the default configuration, with the same memory safety.",
 ["configurations","histories"],"All combinations of the documented configuration macros, all histories.",
 "The tests are compiled in one configuration, whose large initial sizes keep most growth paths unexecuted.",
 [H],[("configuration macros","zzzjson.h zj_DELTA, zj_ALLOCATOR_INIT_MEMSIZE, zj_STRING_INIT_MEMSIZE, zj_STRING_CACHE_INIT_MEMSIZE, zj_SIZE_TYPE, zj_MEMORY_MODE, zj_EXPECT_MODE")],
 ["the observations of C01-C15 under each configuration"])
p("C19","The beta variant parses, edits and serialises the same JSON",
 "The header beta/zzzjson_beta.h accepts exactly the same language, parses and serialises with the same fidelity, and gives the same results for building, copying, moving, deleting and looking up as the main header, including through several handles to the same value. The one exception is that setting a keyed value from a keyed value takes over the source's key.",
 ["inputs","histories"],"Every JSON text and every history of calls on the beta API.",
 "The beta header is only exercised by a benchmark that parses and serialises a few files.",
 ["beta/zzzjson_beta.h"],[("parser and serialiser","z_ValueParseFast, z_ValueParseLen, z_ValueStringify"),("editing","z_ValueMove, z_ValueSet*, z_ValueObjAdd*, z_ValueArrayAdd*")],
 ["same observations as C01-C08, C11, C13 through the z_Value API"])
p("C20","Caller memory is never modified, and retained only by Fast calls",
 "No operation ever writes to a text, key, string or number buffer passed in by the caller. Except for the operations named Fast, nothing in a document refers to caller memory after the call returns, so the caller may overwrite or free it at once; the Fast forms behave the same as their copying forms for as long as the caller's buffer stays unchanged.",
 ["inputs","histories"],"Every operation taking a buffer, every content and length, every later read.",
 "Tests pass string literals that live forever and cannot be overwritten.",
 [H],[("copying into the arena","zj_ParseLen, zj_SetStr, zj_SetStrLen, zj_SetKey, zj_SetKeyLen, zj_SetNumStr, zj_SetNumStrLen, zj_ValueCopyFrom")],
 ["all observations after the buffer was overwritten and freed; buffer bytes after the call"])
p("C21","The Go binding behaves like the C API",
 "The Go package compiles and each of its operations returns what the corresponding C operation returns on the same document: parse verdicts, serialised text, typed getters (nil exactly when absent), lookup, iteration, edits, copies and moves.",
 ["programs","histories"],"Every Go operation and every history of calls.",
 "No test compiles the Go file.",
 ["zzzjson.go",H],[("cgo wrappers","zzzjson.go")],
 ["results of each Go call against the specified document"])
p("C22","Nesting depth and document size have no limit but memory",
 "Parsing, serialising, copying, setting, traversing and deleting work identically at any nesting depth, any number of children and any string, key or number length that fits in memory, within a constant amount of stack. No result depends on a document being small.",
 ["inputs"],"All depths, fan-outs and lengths (the documented size type's range).",
 "Test documents are at most a few levels deep and fixed; limits such as a bounded stack or a narrow counter only show beyond them.",
 [H],[("iterative parser, serialiser and copier using father links","zj_ParseFast, zj_Stringify, zj_ValueCopyFrom"),("wide counters","zj_Size")],
 ["results on documents nested a million deep, containers with a million children, strings of many megabytes, on a small stack"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["id"]
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
