import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

p("C01","JSON argument parser accepts exactly the documented grammar",
 "For every byte string, parsing succeeds exactly when, after optional blanks, the text starts with a value of the libENI JSON subset (true/false, integers without leading zeros, fraction or exponent, double-quoted strings with the JSON escapes, arrays, objects with string keys); null, fractions, unterminated or malformed values are rejected, and text following a complete value is ignored. The verdict depends only on the bytes of the text, and no byte outside the text and its terminator is ever read.",
 ["inputs"],"all byte strings of every length, including embedded NUL and non-ASCII bytes, any nesting depth",
 "The unit tests parse about two dozen short well-formed texts; acceptance is a statement over an infinite recursive language, and an address-dependent verdict only shows under particular memory layouts.",
 ["include/eni/json/Parser.h"],[("recursive-descent parse_* functions over a cursor bounded by the terminator","Parser.h parse_value..parse_error")],
 [("cursor","position of the next unread byte","Parser::m_It"),("success flag","verdict","Parser::m_ParseSucceed")],["Parser constructor verdict"])
p("C02","Parsing yields exactly the value the text denotes",
 "Whenever parsing succeeds, the resulting value has the kind and content the text denotes: booleans, integers equal to their decimal text, strings equal to the literal with every escape decoded (a four-digit code point yields the byte with its low eight bits), arrays with the elements in textual order, objects mapping every key to the value of its last occurrence, at every nesting level. Nothing of the text is lost, duplicated, reordered or attached to another container.",
 ["inputs"],"all accepted texts, any nesting, any order and repetition of keys, integers within 256 bits",
 "Tests look at a few fixed documents; the builder is a stack machine whose correctness is over all sequences of nested open, key, value and close events.",
 ["include/eni/json/Parser.h","include/eni/json/Callbacks.h"],[("event emission in the parser","Parser.h"),("stack of partially built containers","Callbacks.h set_parent/begin_*/end_*")],
 [("stack","containers under construction with the pending key","Callbacks::m_Stack"),("root","finished value","Callbacks::m_Root")],["value returned for the root"])
p("C03","Printed strings are valid JSON and parse back to the same bytes",
 "Printing any string value yields a double-quoted literal in which quotes and backslashes are escaped, no raw control byte below 0x20 occurs, and each byte is represented once and in order. Parsing the printed literal yields a string equal to the original byte for byte.",
 ["inputs"],"all byte strings including NUL, control bytes, quotes, backslashes and bytes 0x80-0xFF",
 "The tests print short ASCII strings; the round trip is a universally quantified inverse law between two independently written functions.",
 ["lib/json/Value.cpp","include/eni/json/Parser.h"],[("escaping loop","Value.cpp print"),("escape decoding","Parser.h parse_string/parse_escape/parse_codepoint")],(),["text written to the stream"])
p("C04","Printed arrays and objects are well-formed JSON of their content",
 "Printing an array writes its elements in order, separated by single commas, between square brackets; printing an object writes each entry exactly once as the key in the form of a printed JSON string, a colon and the value, separated by commas, between braces. Printing changes nothing and depends only on the value printed.",
 ["inputs","histories"],"all arrays and objects of any size and nesting, any key bytes",
 "Tests print fixed small containers and never a key needing quotes or escapes as JSON.",
 ["lib/json/Array.cpp","lib/json/Object.cpp","lib/json/Value.cpp"],[("element loop with separator flag","Array.cpp print"),("entry loop with separator flag","Object.cpp print"),("kind dispatch","Value.cpp print")],(),["text written to the stream"])
p("C05","JSON values copy deeply, move and delegate without sharing",
 "Copying or assigning a JSON value yields a value of the same kind and content that shares no storage with the source, so later changes to or destruction of one never affect the other. Moving transfers the content and leaves the source undefined; delegation adopts the given object only into an undefined value and otherwise reports an error leaving the value unchanged; destroying a value releases the strings, objects and arrays it owns exactly once.",
 ["inputs","histories"],"all kinds of values, all sources and targets including assignment of a value to itself",
 "Tests exercise one or two kinds; independence is about all later operations on either copy.",
 ["include/eni/json/Value.h","lib/json/Value.cpp","lib/json/Notation.cpp","include/eni/json/Notation.h"],[("per-kind allocation in copy and assignment","Value.cpp"),("kind tag transfer","Notation.cpp")],
 [("kind","kind tag","Notation::m_Type"),("payload","owned pointer or boolean","Value::m_Value")],["kind and content queries on both values"])
p("C06","Indexing a JSON value is total and never invents content",
 "Indexing a value that is not an object by key, or not an array by position, yields the undefined value. Indexing an array inside its bounds yields that element and outside its bounds (including negative positions) reports an out-of-range error; indexing an object by a present key yields that entry's value and by an absent key of a read-only object reports an out-of-range error.",
 ["inputs"],"all kinds of values, all keys, all positions in the full int range",
 "Tests index a handful of positions; negative and huge positions and the wrong-kind cases are not covered.",
 ["lib/json/Value.cpp","include/eni/json/Array.h","include/eni/adt/StringMap.h","include/eni/adt/bits/Vector.tcc"],[("kind check and delegation","Value.cpp operator[]"),("checked access","Vector.tcc at, StringMap.h at")],(),["returned reference or exception"])
p("C07","Vector behaves as a sequence under every operation",
 "After any operation the vector holds exactly the sequence that operation specifies: construction, copy and assignment reproduce the given elements, appending adds one element at the end, resizing truncates or pads with the given value, inserting and erasing shift exactly the elements behind the position, swapping exchanges contents, popping returns and removes the last element. This holds for every size and position, and also when the argument is a reference to an element of the same vector.",
 ["inputs","histories"],"all sequences, positions, counts and values, all histories of operations, arguments aliasing the vector's own elements",
 "Tests run fixed small vectors of int; reallocation with aliased arguments and boundary positions are not sampled.",
 ["include/eni/adt/Vector.h","include/eni/adt/bits/Vector.tcc","include/eni/adt/bits/PointerIterator.tcc"],[("growth by reallocation","Vector.tcc reserve"),("shifting copies","Vector.tcc insert/erase")],
 [("data,size,capacity","buffer holding at least size elements","Vector m_Data,m_DataSize,m_AllocSize")],["size and elements"])
p("C08","Vector accesses stay in its buffer and bad positions are reported",
 "No vector operation reads or writes outside the elements its buffer can hold, and capacity is never smaller than size. Checked access, insertion and erasure report an out-of-range error exactly when the position or range is invalid and then leave the vector unchanged; asking for more elements than can be represented reports a length error and leaves the vector unchanged.",
 ["inputs","histories"],"all sizes, capacities, positions, ranges and requested sizes up to the full size_t range",
 "Tests cannot enumerate 64-bit sizes and positions nor observe a silent overrun.",
 ["include/eni/adt/Vector.h","include/eni/adt/bits/Vector.tcc"],[("bounds tests before access","Vector.tcc at/insert/erase"),("size limit","Vector.tcc reserve/max_size")],(),["exceptions, size, memory safety"])
p("C09","Hash table is a map under every history of operations",
 "Every operation sequence makes the table behave as a map: looking up a key finds an entry exactly when it was inserted and not erased since, and finds that entry; inserting a present key returns the existing entry and reports it; inserting an absent key adds one entry holding that key and changes no other; erasing removes exactly the given key; rehashing changes nothing observable. The entry count always equals the number of stored keys, and lookups terminate.",
 ["inputs","histories"],"all keys, all hash functions and collision patterns, all histories of insert, erase, find and rehash, all table sizes up to 2^28 buckets",
 "Tests use a few dozen ints with one hash function; tombstone and wrap-around interactions need specific histories.",
 ["include/eni/adt/HashBase.h","include/eni/adt/bits/HashBase.tcc","include/eni/adt/HashTable.h","include/eni/adt/bits/HashTable.tcc"],[("linear probing with tombstones","HashBase.tcc lookupBucketFor/findKey"),("rehash thresholds keep an empty bucket","HashBase.tcc mayRehash/doRehash")],
 [("buckets","probe array","TableImpl::m_Buckets"),("counters","entries and tombstones","TableImpl::m_NumOfEntries/m_NumOfTombstones")],["find/insert/erase/count results"])
p("C10","Hash table iteration visits every entry exactly once",
 "Walking a table from beginning to end visits every stored entry exactly once and nothing else, for every layout of empty and erased slots, and reaches the end. Walking the entries that share a key's hash starts at the entry with that key exactly when the key is present, never dereferences a missing entry, and terminates.",
 ["inputs","histories"],"all table contents and layouts, including empty and cleared tables and hash value 0",
 "Which slots are skipped depends on insertion and erase history and on hash values; tests see a few layouts.",
 ["include/eni/adt/HashIterator.h","include/eni/adt/bits/HashIterator.tcc","include/eni/adt/bits/HashTable.tcc"],[("skip of empty and erased slots","HashIterator.tcc advance, HashTable.tcc begin"),("wrap-around walk","HashIterator.tcc ChainIterBase")],(),["entries yielded"])
p("C11","Copied, assigned, moved and cleared tables hold the right entries",
 "A copied or copy-assigned table holds the same keys with equal values in entries of its own, so later changes to one table never show in the other, and the source is unchanged; assigning a table to itself keeps its contents. A moved-from or cleared table is empty and, like a table created with or copied from one without slots, remains usable for every operation.",
 ["inputs","histories"],"all source and target tables, including empty, cleared, slotless and self",
 "Tests copy one or two populated tables; empty, cleared and self cases and later divergence are not covered.",
 ["include/eni/adt/bits/HashBase.tcc","include/eni/adt/bits/HashTable.tcc"],[("bucket array copy then entry duplication","HashBase.tcc/HashTable.tcc copy operations")],(),["find results on both tables after further operations"])
p("C12","String maps keep every key intact, whatever its length or bytes",
 "A string-keyed map stores each key byte for byte whatever its length or content and keeps distinct keys distinct. Checked access returns the stored value of a present key and reports an out-of-range error for an absent one without changing the map, index access adds the key when absent, size is the number of keys, and assignment returns the assigned map.",
 ["inputs","histories"],"all keys of any length and bytes, all histories",
 "Tests use short ASCII keys; length-field truncation and embedded NUL bytes need unusual keys.",
 ["include/eni/adt/StringMap.h","include/eni/adt/StringHashTable.h"],[("inline key storage behind the entry","StringHashTable.h Entry/MallocAllocator"),("map facade","StringMap.h")],
 [("stored key","length and bytes","Entry<std::string,V>::m_KeyLen/m_Key")],["at, operator[], size, keys seen while iterating"])
p("C13","Operation lifecycle: rejected arguments never run, gas is consistent",
 "For every operation and argument text, the operation's argument check runs at most once before anything else; if the arguments are not an array or the check rejects them, gas is 1500, the operation never runs and no result is returned. If the check accepts, gas is the operation's own cost, and running returns either nothing when the operation fails or a newly allocated terminated text that is the JSON array of the values the operation pushed.",
 ["inputs","histories","programs"],"all operations (any behaviour of the three hooks), all argument texts, all orders of gas and run calls",
 "Tests use two toy operations; the guarantee quantifies over every subclass and call order.",
 ["include/eni/eni.h","lib/eni.cpp"],[("memoized check","eni.h check"),("gating of gas and run","eni.h getGas/start"),("C entry points","eni.h ENI_GAS/ENI_RUN")],
 [("parse memo","checked flag and verdict","EniBase::m_Parsed/m_ParseSuccess")],["C functions <op>_gas and <op>_run"])
p("C14","Malformed argument text terminates with exit status 87",
 "Creating an operation from argument text that the JSON parser rejects terminates the process with exit status 87 before any hook of the operation runs; from accepted text it never terminates the process and hands the operation exactly the parsed value.",
 ["inputs"],"all argument texts","Tests try one malformed text.",
 ["lib/eni.cpp","include/eni/eni.h"],[("verdict test in the constructor","eni.cpp EniBase::EniBase")],(),["process exit status, hook calls"])
p("C15","Scrypt core computes the standard function",
 "For every 80-byte input the scrypt routine writes exactly the 32 bytes of RFC 7914 scrypt with N=1024, r=1, p=1 using the input as both password and salt, given SHA-256. It reads only the input, writes only the 32 output bytes and its own scratch space, and does not depend on the scratch space's alignment or previous contents.",
 ["inputs","configurations"],"all 2^640 inputs, all scratch alignments",
 "Tests check a few vectors; a slip that affects some inputs only (a data-dependent index, a rotation, a carry) is not sampled.",
 ["tools/eni_scrypt/scrypt.cpp","tools/eni_scrypt/scrypt.h"],[("PBKDF2/HMAC","scrypt.cpp"),("Salsa20/8 and ROMix","scrypt.cpp xor_salsa8, scrypt_1024_1_1_256_sp_generic")],(),["output buffer"])
p("C16","Scrypt operation validates, decodes and encodes exactly",
 "The scrypt operation requires a string of at most 160 hexadecimal digits of either case as its first argument and rejects any argument list lacking it. It hashes the digits decoded most significant first into 80 zero-padded bytes (an odd count is read with a leading zero), charges 10 gas per input byte rounded up, and returns one string of 64 lowercase hexadecimal digits encoding the digest in order.",
 ["inputs"],"all argument arrays and strings",
 "Tests use a few fixed strings; wrong kinds, odd lengths, mixed case and boundary lengths multiply.",
 ["tools/eni_scrypt/eni_scrypt.cpp"],[("validation in parse","eni_scrypt.cpp Scrypt::parse"),("hex decode/encode loops","eni_scrypt.cpp Scrypt::run"),("gas formula","eni_scrypt.cpp Scrypt::gas")],(),["gas and result text"])
p("C17","Hex encoding and decoding are exact inverses",
 "Encoding any byte string yields two lowercase hexadecimal digits per byte in order. Decoding succeeds exactly on even-length strings of hexadecimal digits of either case and inverts encoding byte for byte; anything else is refused.",
 ["inputs"],"all byte strings and all candidate hex strings",
 "Inverse law over all byte strings; tests round-trip a few messages.",
 ["tools/eni_crypto/eni_crypto.cpp"],[("encode loop","eni_crypto.cpp str2hex"),("decode loop","eni_crypto.cpp hex2str")],(),["helper results"])
p("C18","RSA operations pass exact buffers and reject what does not fit",
 "The RSA operations require a PEM key string and a message string (for decryption, in hexadecimal) as their first two arguments and reject argument lists lacking them and unusable keys; gas is ten per byte of key size. Encryption hands the library exactly one key-sized block consisting of the message padded with zero bytes, refuses messages longer than the key size, and returns the library's whole output; decryption hands over exactly the given bytes and returns the library's output up to its first zero byte; no buffer is over-read or over-written, and library failure yields no result.",
 ["inputs"],"all keys, key sizes, messages and library outcomes",
 "Tests round-trip short messages with one key; boundary lengths, unterminated output and library failures are not sampled.",
 ["tools/eni_crypto/eni_crypto.cpp"],[("padding and call wrappers","eni_crypto.cpp rsa::*"),("argument handling","eni_crypto.cpp RSAEncrypt/RSADecrypt")],(),["calls to the crypto library, results"])
p("C19","Command-line arguments are assigned by position, exactly three",
 "For every argument vector, parsing succeeds exactly when there are exactly three positional arguments, and then library path, operation name and parameters are those three in order, byte for byte. Arguments starting with a dash are not positional until a lone double dash, which is itself consumed and makes every later argument positional.",
 ["inputs"],"all argument vectors of any length, all argument strings",
 "Tests cover a handful of argument vectors; option/terminator interleavings are unbounded.",
 ["tools/eni_cli/optParser.cpp","tools/eni_cli/optParser.h"],[("argument loop","optParser.cpp Opt::parse")],
 [("positional count","number of positionals seen","Opt::parse posCount")],["parse verdict and the three strings"])
p("C20","Command-line tools report each failure distinctly and print the result",
 "The run and gas tools exit 0 only after printing the operation's result (the text, or the gas in decimal) followed by a newline, and otherwise print no result and exit with the status of the first step that failed: option errors (1 for run, 2 for gas), library not loadable 3, operation symbol missing 4, operation without result 5. The operation is called once with the given parameter text under the symbol name formed from operation name and tool suffix, and returned memory is released exactly once with the allocator it came from.",
 ["inputs","fault_sequences"],"all argument vectors and all outcomes of loading, symbol lookup and the operation",
 "The tool tests run a few success and failure paths with fixed libraries.",
 ["tools/eni_cli/eni_run.cpp","tools/eni_cli/eni_gas.cpp"],[("early-return chain","eni_run.cpp main, eni_gas.cpp main")],(),["exit status, standard output, loader calls"])
p("C21","Reverse operation returns the exact reversal",
 "The reverse operation requires a string as its first argument and rejects any argument list lacking it; it charges ten gas per byte and returns one string holding the argument's bytes in opposite order.",
 ["inputs"],"all argument arrays and strings","Tests reverse a few words; wrong kinds and counts are not covered.",
 ["examples/eni/reverse/eni_reverse.cpp"],[("reverse iterators","eni_reverse.cpp run"),("argument check","eni_reverse.cpp parse")],(),["gas and result text"])
p("C22","Substring filter never rejects an actual substring",
 "The characteristic-function string filter never reports that one string cannot occur in another when it does, for any two strings; the characteristic value depends only on the characters of the string.",
 ["inputs"],"all pairs of strings where one is a substring of the other, of any length",
 "A false negative needs particular character counts (many dots) that the tests do not contain.",
 ["include/eni/adt/StringHasher.h"],[("bit set and saturating dot count","StringHasher.h StringHasher<ES>"),("filter test","StringHasher.h may_include")],(),["may_include verdict"])
p("C23","JSON slicing operation returns exact token ranges",
 "The json operation returns the encoded start and end offsets of exactly the requested element of an array or object slice of its data, and rejects operations, indices, keys and slices that do not exist.",
 ["inputs"],"all data texts, slices, indices and keys","Tests run a few fixed documents.",
 ["examples/eni/json/eni_json.cpp"],[("token filtering over jsmn output","eni_json.cpp arrayTokens/objectTokens")],(),["result text"])
p("C24","Integer and boolean types print in decimal and as true/false",
 "Converting any of the fixed-width integers to text yields its exact decimal representation, and booleans yield true or false.",
 ["inputs"],"all values of each type","Full value ranges of up to 2^256.",
 ["lib/eni_types.cpp"],[("delegation to the multiprecision library's conversion","eni_types.cpp to_string")],(),["returned text"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
