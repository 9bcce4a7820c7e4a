#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
S = "crates/sourisdb/src/"
D = "crates/sourisd/src/"
M = "crates/mouse/src/"
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A store serialised to bytes reads back as exactly the same store",
 "For every store (a map from string keys to values of any of the supported types, containers nested up to the documented depth of 128), serialising it and deserialising the bytes gives an equal store whose values also keep their kinds. This holds for every key (empty, non-ASCII, control characters, NUL), every value type, and whatever order the keys were inserted in; equal stores may serialise differently, but each of those forms reads back equal. Nothing is lost, merged, added or reordered inside arrays.",
 ["inputs"], "all stores: every mix of value types, key strings, sizes, and nestings of at most 128 containers",
 "The unit tests round-trip a handful of fixed values and one proptest of shallow values; heterogeneous maps, empty containers, single-character key sets and NULs all broke without a test failing.",
 [S+"store.rs", S+"values.rs", S+"utilities/huffman.rs", S+"types/integer.rs", S+"types/binary.rs", S+"types/imaginary.rs"],
 [("Store::ser writes the magic, a shared Huffman tree over the strings, then a map", S+"store.rs:42"), ("Value::ser / Value::deser, one arm per type", S+"values.rs:986")],
 ["Store::ser", "Store::deser"])
prop("C02", "A value serialised on its own reads back equal and ends where it said",
 "Serialising any value and deserialising the result gives an equal value of the same kind, whether or not a string-compression tree is supplied, as long as both sides use the same one, and also when the tree lacks some of the value's characters. The encoding says where it ends: reading it back from the front of a longer buffer consumes exactly its own bytes and leaves the following bytes for the next reader.",
 ["inputs"], "all values times (no tree, a tree covering the text, a tree of other text, the built-in English tree) times trailing bytes",
 "Existing proptests round-trip single values with no following bytes and at most one tree.",
 [S+"values.rs", S+"utilities/huffman.rs", S+"utilities/bits.rs", S+"utilities/cursor.rs"],
 [("type byte with niche bits, length prefixes", S+"values.rs:986"), ("Value::deser consumes from a cursor", S+"values.rs:1150")],
 ["Value::ser", "Value::deser", "Cursor::pos"])
prop("C03", "Damaged encodings are refused rather than read as something else",
 "Every strict prefix of a serialised store or value is refused with an error. A store is also refused when its leading magic bytes differ, when a value carries an unknown type or marker, when text is not valid UTF-8, or when a date, time or time zone names a moment that does not exist.",
 ["inputs"], "all valid encodings times every cut point, every changed magic byte, and every kind of ill-formed field",
 "Tests only read what the serialiser wrote; the error paths have no tests.",
 [S+"store.rs", S+"values.rs", S+"types/binary.rs", S+"types/integer.rs", S+"utilities/huffman.rs"],
 [("magic comparison", S+"store.rs:104"), ("NotEnoughBytes and invalid-marker errors", S+"values.rs:1150")],
 ["Store::deser", "Value::deser"])
prop("C04", "No byte sequence can crash or exhaust a reader",
 "Deserialising any byte sequence (as a store, a value with or without a string-compression tree, an integer, an imaginary number, bits, a tree, or compressed binary data) returns a result or an error: it never panics, aborts, overflows the stack, loops for ever, or allocates memory out of proportion to the input. Whatever is accepted is a well-formed value: it can be serialised, and what that gives reads back as an equal value.",
 ["inputs"], "all byte strings: random, grammar-built with hostile lengths and nestings, and mutations of valid encodings",
 "No test feeds a reader with bytes the writer did not produce, and the bad ones are rare and specific (claimed lengths, tree depth, nesting).",
 [S+"store.rs", S+"values.rs", S+"types/binary.rs", S+"types/binary/huffman.rs", S+"types/binary/lz.rs", S+"types/binary/rle.rs", S+"utilities/huffman.rs", S+"utilities/bits.rs"],
 [("bounded readers, checked lengths, nesting limit", S+"values.rs:1150"), ("try_reserve for claimed lengths", S+"types/binary/lz.rs:38"), ("tree depth limit", S+"utilities/huffman.rs:159")],
 ["Store::deser", "Value::deser", "Integer::deser", "Imaginary::deser", "Bits::deser", "Huffman::deser", "BinaryData::deser"])
prop("C05", "Every binary compression scheme is lossless and the smallest is chosen",
 "For every byte string, run-length, Huffman and Lempel-Ziv compression each decompress to exactly the original and consume exactly their own output, even when other bytes follow. A binary value is stored with a scheme whose output is no longer than that of any of the other schemes, including storing it raw, and reads back unchanged with its length intact.",
 ["inputs"], "all byte strings, in particular long runs (254..258 and beyond), repeats at every distance and length, single symbols and empty input",
 "The tests compress a few texts and small random vectors; run and window boundaries and one-symbol inputs are not reached.",
 [S+"types/binary.rs", S+"types/binary/rle.rs", S+"types/binary/lz.rs", S+"types/binary/huffman.rs"],
 [("BinaryData::ser picks the shortest", S+"types/binary.rs:178"), ("rle/un_rle", S+"types/binary/rle.rs"), ("lz/un_lz", S+"types/binary/lz.rs"), ("huffman/un_huffman", S+"types/binary/huffman.rs")],
 ["BinaryData::ser", "BinaryData::deser", "rle", "lz", "huffman"])
prop("C06", "String compression is lossless, prefix-free, optimal and self-describing",
 "A compression tree built from any non-empty data encodes that data (and any other text over the same symbols) so that it decodes to the original, gives every symbol a distinct non-empty code none of which is a prefix of another, and reaches the minimum total encoded length for that data. Serialising a tree and reading it back gives a tree with the same codes, and consumes exactly the bytes written. Encoding a symbol the tree lacks and decoding bits that end mid-code are errors, and building from no data is refused.",
 ["inputs"], "all symbol sequences over characters and bytes, incl. one-symbol alphabets, skewed (Fibonacci) frequencies and the full Unicode range; the whole built-in English tree",
 "The tests round-trip a few strings; optimality, prefix-freeness, one-symbol and U+0000 alphabets are never examined.",
 [S+"utilities/huffman.rs"],
 [("Huffman::new / MinHeap", S+"utilities/huffman.rs:326"), ("Huffman::encode / decode", S+"utilities/huffman.rs:437"), ("Node::ser / deser", S+"utilities/huffman.rs:146")],
 ["Huffman::new", "Huffman::new_str", "Huffman::encode", "Huffman::decode", "Huffman::ser", "Huffman::deser"])
prop("C07", "A bit sequence behaves like the list of booleans it holds",
 "After any sequence of pushing, popping, appending, clearing and copying, a bit sequence has the length and the bits, in order, that the same operations give on a list of booleans, through every way of reading it (index, iteration, popping, display, conversion, bytes). Two bit sequences are equal, and hash equally, exactly when they hold the same bits, and serialising one and reading it back gives an equal one and consumes exactly the bytes written.",
 ["histories", "inputs"], "all histories of operations, in particular those that cross byte boundaries or leave stale bits behind a pop",
 "The tests push and read back; histories with pops and appends across byte boundaries are not generated.",
 [S+"utilities/bits.rs"],
 [("bit storage and offset arithmetic", S+"utilities/bits.rs:57"), ("ser / deser", S+"utilities/bits.rs:145")],
 ["Bits::push", "Bits::pop", "Bits::push_many", "Bits::ser", "Bits::deser", "Index", "IntoIterator"])
prop("C08", "A cursor reads its data once, in order and never out of range",
 "A cursor behaves like the slice it was made from plus a position: every read, peek, move, iteration and seek gives the items at that position and moves it by exactly the amount read, and an attempt to go beyond either end fails and leaves the position unchanged. Finished, remaining and position always agree with each other.",
 ["histories", "inputs"], "all histories of cursor operations over all slices, with extreme offsets (0, end, beyond, the largest and most negative)",
 "There are no tests of seeking and few of failed moves.",
 [S+"utilities/cursor.rs"],
 [("Cursor position arithmetic", S+"utilities/cursor.rs:27"), ("Seek", S+"utilities/cursor.rs:210")],
 ["Cursor::read", "Cursor::peek", "Cursor::move_forwards", "Cursor::move_backwards", "Cursor::seek", "Iterator::next"])
prop("C09", "Integers convert to and from every built-in type exactly or not at all",
 "An integer made from any built-in integer converts back to every built-in integer type: to the same number if that type can hold it, and to an error otherwise. No conversion wraps, truncates or saturates, for any width from 8 to 128 bits, signed or unsigned, or for the pointer-sized types.",
 ["inputs"], "all pairs of source and target type times all source values, dense around every type's limits and zero",
 "The tests sample a few values per width; cross-width and cross-sign limits are not covered.",
 [S+"types/integer.rs"], [("From / TryFrom macros", S+"types/integer.rs:180")], ["From<uN/iN> for Integer", "TryFrom<Integer>"])
prop("C10", "Integers have one shortest little-endian encoding that says its length",
 "A serialised integer holds the number's sign information and its magnitude in the fewest whole bytes, least significant first, with a length that fits the number, so that equal numbers encode identically however they were made. It reads back as the same number, consuming exactly its own bytes, and any acceptable padded form reads as the same number as the short form.",
 ["inputs"], "all 128-bit signed and unsigned numbers, dense around the limits of each byte length, times trailing bytes",
 "The tests round-trip values of single widths and never compare the bytes of equal numbers of different widths.",
 [S+"types/integer.rs"], [("Integer::ser / deser", S+"types/integer.rs:700")], ["Integer::ser", "Integer::deser"])
prop("C11", "Integers compare, hash, print, parse and export by numeric value",
 "Two integers are equal exactly when they are the same number, whatever types they were made from, and equal integers hash equally and report the same sign. The text of an integer is its decimal notation, parsing text gives the number it denotes and refuses text that denotes none or one that does not fit, and exporting to JSON or to a serde format and reading it back gives the same number or, for JSON, is refused.",
 ["inputs"], "all pairs of integers of all source types, all decimal texts (signs, zeros, too long) and all JSON numbers",
 "The tests compare a few values of single widths.",
 [S+"types/integer.rs"], [("PartialEq / Hash", S+"types/integer.rs:76"), ("Display / FromStr", S+"types/integer.rs:147"), ("serde and JSON", S+"types/integer.rs:124")], ["PartialEq", "Hash", "Display", "FromStr", "to_json", "from_json", "serde"])
prop("C12", "Integer arithmetic and float conversion are exact or refused",
 "Adding, subtracting, multiplying and dividing integers gives the mathematical result (division towards zero) whenever operands and result fit one 128-bit type, in whatever widths the operands were made, and panics (as built-in integers do) rather than giving a wrong number. Converting a float to an integer gives exactly its value and is refused, with the reason, when it has a fractional part, is not finite or does not fit; converting an integer to a float gives the nearest float.",
 ["inputs"], "all operand pairs of all widths, incl. overflow and zero divisors; all 32- and 64-bit floats",
 "The tests use small operands; mixed sign and width operands and float limits are not covered.",
 [S+"types/integer.rs"], [("arithmetic macros", S+"types/integer.rs:195"), ("TryFrom<f32/f64>, From<Integer> for f32/f64", S+"types/integer.rs:351")], ["Add, Sub, Mul, Div", "TryFrom<f64>", "From<Integer> for f64"])
prop("C13", "Imaginary numbers survive storage and convert between their forms correctly",
 "An imaginary number, in cartesian or polar form, serialises and reads back equal and with the same form, consuming exactly its own bytes. Converting to polar form gives the modulus and argument of the same point (zero has argument zero), and converting back gives the original number whenever its parts are exactly representable; a polar number that is not at a whole-number point is refused with the unchanged number. Equal numbers hash equally, and a cartesian number prints as its two parts with their signs.",
 ["inputs"], "all cartesian pairs of integers of any width and sign, and all polar pairs of finite floats",
 "The tests cover a handful of numbers and no axis or zero cases.",
 [S+"types/imaginary.rs"], [("ser / deser", S+"types/imaginary.rs:210"), ("to_polar_form / to_cartesian_form", S+"types/imaginary.rs:109")], ["Imaginary::ser", "Imaginary::deser", "to_polar_form", "to_cartesian_form"])
prop("C14", "JSON documents and typed Rust data survive being stored",
 "Every JSON object (that does not use the reserved tag name as a key) imported into a store and exported again without type tags is the same JSON document, also after passing through the binary form; a JSON document that is not an object is kept under a single key and comes back unchanged. Data of any Rust type that can be written as JSON, saved to bytes and loaded back as the same type is equal to the original. Text that is not JSON is refused.",
 ["inputs"], "all JSON documents (any nesting, key, number, string) and all values of a family of serde types (structs, enums in each representation, options, tuples, maps)",
 "The tests import a few literals; empty and heterogeneous objects, big integers and nested arrays are not generated.",
 [S+"store.rs", S+"values.rs"], [("from_json / to_json / from_bytes / to_bytes", S+"store.rs:147"), ("convert_from_json / convert_to_json", S+"values.rs:614")], ["Store::from_json", "Store::to_json", "Store::from_json_bytes", "Store::to_bytes", "Store::from_bytes"])
prop("C15", "Typed JSON export and import give back the same typed store",
 "Exporting a store to JSON with type tags and importing that JSON gives the same store back: timestamps, time zones, binary data, imaginary numbers and addresses keep their kind by their tag, and strings, booleans, null, integers, double floats, arrays and maps are JSON's own. What has neither a tag nor a kind of its own in JSON comes back as the kind that is rendered alike (a character as a string, a single float as the double float of the same value, embedded JSON as the values it describes). An export is absent exactly when something in the store has no JSON form (an integer outside 64 bits, a float that is not finite), and exporting without tags gives the plain JSON rendering of each value. A tagged object whose contents do not fit its tag is refused.",
 ["inputs"], "all stores whose keys do not use the reserved tag name, with every value type and extreme contents",
 "The tests export one example per type at most; timestamps and nested typed values were not re-importable.",
 [S+"values.rs", S+"store.rs", S+"types/binary.rs"], [("convert_to_json", S+"values.rs:614"), ("convert_from_json", S+"values.rs:739")], ["Value::convert_to_json", "Value::convert_from_json", "Store::to_json", "Store::from_json"])
prop("C16", "Values have lawful equality and hashing",
 "For all values without NaN, equality is reflexive, symmetric and transitive, equal values hash equally, and a clone is equal to its original. Values of different kinds are unequal, and changing any part of a value, at any depth, makes it unequal to the original.",
 ["inputs"], "all values, pairs and triples, incl. near-equal ones (signed zeros, integers of different widths, map order, single-element changes)",
 "The tests never compare unequal values or hash anything.",
 [S+"values.rs", S+"types/integer.rs", S+"types/imaginary.rs", S+"types/binary.rs"], [("PartialEq / Hash for Value", S+"values.rs:195")], ["PartialEq", "Hash", "Clone"])
prop("C17", "Typed accessors and store operations behave like a typed map",
 "Each typed accessor of a value (borrowing, mutable, consuming, testing, constructing, converting) succeeds exactly for values of its own kind and gives the contents unchanged, and a mutation through one is seen by all others. A store used through any history of insertions, removals, lookups, iterations and clearing behaves like a map from keys to values.",
 ["histories", "inputs"], "all values times all accessors, and all histories of map operations on a store",
 "The accessors are macro-generated and have no tests; store histories have none either.",
 [S+"values.rs", S+"store.rs"], [("accessor macro", S+"values.rs:110"), ("Deref to the map", S+"store.rs:210")], ["Value::as_*", "Value::to_*", "Value::is_*", "TryFrom<Value>", "Store methods"])
prop("C18", "The daemon answers every request as a map of maps would",
 "For every sequence of requests, the daemon's answers (status, body and the contents it then serves) are those of a map from database name to a map from key to value: creating, filling (replacing or merging), clearing and removing databases, adding keys with or without overwriting or creating the database, removing keys, and reading values, whole databases and the list of names. The status of each answer tells truly whether the database or key existed, was created, was overwritten, or is missing, and a request that is refused changes nothing. A whole-database read always shows every change acknowledged before it.",
 ["histories", "inputs"], "all sequences of requests over all names, keys, flags and values, with reads in any order in between",
 "There are no tests of the daemon at all.",
 [D+"v1_routes/state.rs", D+"v1_routes/db.rs", D+"v1_routes/value.rs", D+"main.rs", D+"error.rs", S+"axum.rs"],
 [("SourisState operations under one lock, with a cache of serialised databases", D+"v1_routes/state.rs"), ("status codes", D+"error.rs:70")],
 ["HTTP routes under /v1"], state=[("dbs", "all databases by name", D+"v1_routes/state.rs"), ("db_cache", "serialised databases served by get_db", D+"v1_routes/state.rs")])
prop("C19", "Concurrent clients see one order of events and no stale reads",
 "However requests from several clients overlap, the answers are explained by some order of the requests that respects which finished before which began: no acknowledged change is lost, no two clients both create the same thing, and no read, of a key, a whole database or the list of names, shows a state older than a change acknowledged before the read began. Once the clients stop, a whole-database read agrees with reading each key.",
 ["schedules", "histories"], "all interleavings of concurrent requests of several clients on the same databases",
 "There are no tests of the daemon, and races between the cache and the map need particular schedules.",
 [D+"v1_routes/state.rs"], [("one mutex around the map", D+"v1_routes/state.rs"), ("cache invalidated by writers and filled by readers under the lock", D+"v1_routes/state.rs")],
 ["HTTP routes under /v1"], state=[("db_cache", "may only hold what the map holds", D+"v1_routes/state.rs")])
prop("C20", "Databases survive the daemon being stopped and started again",
 "After any sequence of requests, stopping the daemon in the orderly way and starting it on the same directory serves exactly the same databases with exactly the same contents, and removed databases stay removed. The daemon saves by itself about every ten seconds, and everything acknowledged before the latest completed save is also served after the daemon is killed outright, and a database that is present on disk and listed is loaded whatever its contents.",
 ["histories", "crash_points"], "all request histories with any number of restarts, orderly or by kill after a periodic save",
 "There are no tests of the daemon or of its files.",
 [D+"v1_routes/state.rs", D+"main.rs"], [("save writes each database and then the list of names", D+"v1_routes/state.rs"), ("new loads the listed databases", D+"v1_routes/state.rs"), ("saver task and graceful shutdown", D+"main.rs")],
 ["HTTP routes after a restart", "files under BASE_LOCATION"])
prop("C21", "A crash or a full disk during a save does not lose saved databases",
 "Whatever instant the daemon is killed at while it is saving, and whichever single file operation of a save fails, a daemon started afterwards on the same directory starts, and serves every database that had been saved before either as it was at the last completed save or as it is in the interrupted one, never missing, empty or torn. A failed save loses nothing that is in memory, and the next save that succeeds persists it.",
 ["crash_points", "fault_sequences", "histories"], "all histories times a crash or an error (no space, I/O error, short write) at every file operation of a save",
 "There are no tests of the daemon; crash points and disk faults cannot be reached by example tests.",
 [D+"v1_routes/state.rs", D+"main.rs"], [("files are replaced whole, the list of names last", D+"v1_routes/state.rs")],
 ["HTTP routes after a restart", "files under BASE_LOCATION"])
prop("C22", "No database name makes the daemon touch anything but its own files",
 "Whatever database name a request carries (path separators, dot segments, NUL, over-long, non-ASCII, the reserved name), the daemon creates, changes and removes only files directly inside its own directory, and never the file of its database list on a client's behalf. A name that cannot be stored is refused with a client error by every route that could create a database under it, and does not disturb the saving of the others.",
 ["inputs", "histories"], "all database names times all routes, followed by a save and a restart",
 "There are no tests of the daemon; hostile names are not in any example.",
 [D+"v1_routes/state.rs", D+"v1_routes/db.rs", D+"v1_routes/value.rs"], [("name validation before a database is created", D+"v1_routes/state.rs")],
 ["HTTP status", "file operations of the process", "files around BASE_LOCATION"])
prop("C23", "Bad requests get client errors and leave the daemon and its data intact",
 "A request that is malformed (missing or ill-typed parameters, wrong method, unknown path, a body that is not a valid store or value, a truncated or random body) is answered with a client-error status, or served normally if it happens to be valid. It changes no data, and the daemon goes on serving correct answers to the requests that follow and the health check.",
 ["inputs", "histories"], "all malformed requests and bodies, mixed into histories of good ones",
 "There are no tests of the daemon; hostile bodies are not in any example.",
 [S+"axum.rs", D+"error.rs", D+"main.rs", D+"v1_routes/db.rs"], [("extractors refuse before the state is touched", S+"axum.rs"), ("status codes", D+"error.rs:70")],
 ["HTTP routes under /v1", "/healthcheck"])
prop("C24", "The blocking and the async client do what the daemon was asked",
 "Every operation of the blocking and of the async client has the effect on the daemon that its documentation states and reports truly what happened (created, overwrote, found, missing), for all database names, keys (including those needing escaping in a URL) and values. Both clients give the same answers for the same history (except where the asynchronous one documents that it answers none, false or nothing for what is missing, which the blocking one reports as an error), a failed operation reports an error and changes nothing, and a database or value read through a client equals what was stored.",
 ["histories", "inputs"], "all histories of client operations over all names, keys and values, on both clients",
 "There are no tests of the clients.",
 [S+"client.rs", S+"client/sync_client.rs", S+"client/async_client.rs", D+"v1_routes/state.rs"], [("SyncClient over ureq", S+"client/sync_client.rs"), ("AsyncClient over reqwest", S+"client/async_client.rs")],
 ["SyncClient methods", "AsyncClient methods", "daemon contents"])
prop("C25", "The command line tool moves databases in and out unchanged",
 "Importing a JSON file into a database with the command line tool replaces that database's contents with exactly the file's keys and values, and exporting a database writes a JSON file that is the database's JSON rendering (with type tags if asked for). An entry created or updated interactively is stored under the key entered with exactly the type and contents entered, in the database chosen; removing an entry or a database removes just that one. A cancelled command changes nothing. A failing command reports an error and leaves the daemon's data unchanged, and an export that cannot be made leaves no file and no file changed.",
 ["inputs", "histories"], "all JSON documents and databases moved in and out, and all types of interactively created values",
 "The command line tool has no tests.",
 [M+"main.rs", M+"value_utils.rs"], [("import / export commands", M+"main.rs"), ("interactive creation of values", M+"value_utils.rs")],
 ["mouse subcommands through a terminal", "daemon contents", "exported files"])
prop("C26", "The stored format is the documented one, byte for byte",
 "Files and messages written by any build stay readable: a store or value encoded by an independent implementation of the format decodes to the same contents, and what the library writes is decoded by that implementation to the same contents. Every type keeps its type number and its layout (magic, tree, lengths, byte order, marker bits).",
 ["inputs"], "all stores and values in both directions between the library and an independent reader and writer",
 "Round-trip tests pass when the writer and the reader change together; no golden files exist.",
 [S+"store.rs", S+"values.rs", S+"types/binary.rs", S+"types/integer.rs", S+"types/imaginary.rs", S+"utilities/huffman.rs", S+"utilities/bits.rs"], [("type numbers", S+"values.rs:394"), ("layout of each type", S+"values.rs:986"), ("store header", S+"store.rs:42")],
 ["Store::ser", "Store::deser", "Value::ser", "Value::deser"])
prop("C27", "Web handlers get and give exactly the value or store that was sent",
 "With the axum feature, a value or a store returned from a handler is answered with status 200 and a body of which the library reads an equal value or store, and a request with such a body (in however many pieces it arrives) reaches a handler as an equal value or store. A handler gets what the library reads from the bytes of the body or does not run at all: a request whose body holds no readable value or store is refused with 400 and a text saying so, and one whose body cannot be read to its end (too long, broken off) is refused with the status axum has for that.",
 ["inputs"], "all values and stores as answers and requests in all pieces, and all bodies that are hostile, cut off, broken off or of the wrong kind",
 "The extractors and answers have no tests but two compiled examples.",
 [S+"axum.rs", S+"values.rs", S+"store.rs"], [("IntoResponse and FromRequest for Value and Store", S+"axum.rs:54"), ("SourisRejection: status and text", S+"axum.rs:93")],
 ["Value::into_response", "Value::from_request", "Store::into_response", "Store::from_request", "SourisRejection"])
prop("C28", "A printed value or store shows exactly what it holds",
 "Printing any value or store succeeds. Characters and strings print quoted and escaped, numbers in decimal (imaginary numbers with both parts), booleans and null as words, binary data byte by byte in hexadecimal, moments, time zones and addresses in their usual text form (from which they can be read back), JSON as JSON. An array prints its elements in order between brackets. A map or store prints as a table with a heading and exactly one row for each of its entries, showing the key and what the value beside it prints as, at every level of nesting.",
 ["inputs"], "all values and stores of every kind and nesting",
 "No test looks at what is printed except for integers.",
 [S+"values.rs", S+"store.rs", S+"types/integer.rs", S+"types/imaginary.rs", S+"types/binary.rs", S+"lib.rs"], [("Display for Value", S+"values.rs:303"), ("Display for Store", S+"store.rs:223"), ("hexadecimal bytes", S+"lib.rs:39")],
 ["Value as Display", "Store as Display"])

prop("C29", "The library computes the same in every build and on every machine",
 "The library built without any of its optional features (in particular without the standard library), and the library on a machine of another byte order and word size, behave as the full build on a 64-bit little-endian machine does: every store, value, binary data, tree or sequence of bits that one of them writes has the documented bytes and is read by the others as the same; numbers are read, printed, computed with, compared and converted alike (the machine-word widths have the range of that machine's words); JSON documents are read into and written from the same stores; and bytes or documents that one of them refuses are refused by all, without a panic.",
 ["inputs"], "all stores, values, JSON documents, numbers, texts, binary data and damaged encodings; builds: no features, 32-bit big-endian",
 "The tests run only with the features of the workspace and on the machine they are built on.",
 [S+"types/integer.rs", S+"values.rs", S+"store.rs", S+"utilities/huffman.rs", S+"utilities/bits.rs", S+"utilities/cursor.rs", S+"types/binary.rs", S+"types/binary/huffman.rs", S+"types/binary/rle.rs", S+"types/binary/lz.rs", S+"lib.rs"],
 [("little-endian and variable-width numbers", S+"types/integer.rs:ser"), ("lengths as machine words", S+"values.rs:deser"), ("tables and text only with std", S+"store.rs:Display")],
 ["sourisdb with default-features = false", "the on-disk and on-wire encodings"])

prop("C30", "What is read and written depends on the data alone",
 "Reading the same bytes gives the same outcome every time, whatever the memory of the process held before: the same value, or a refusal each time. Nothing that was in memory shows in what is read, also where the bytes are damaged or hostile: compressed data that refers to anything but what comes before it in its own output is refused. Writing the same store gives bytes that read as that store, whatever memory held.",
 ["inputs"], "all byte strings read as values, stores and LZ4 blocks; all stores written; all contents of fresh memory",
 "Tests compare one run with an expectation, in memory that happens to be zero or fresh; whether uninitialised memory can come out depends on hostile input and on what was freed before.",
 [S+"types/binary/lz.rs", S+"types/binary.rs", S+"values.rs", S+"store.rs", S+"utilities/huffman.rs"],
 [("decompression of LZ4 blocks", S+"types/binary/lz.rs:un_lz"), ("Value::deser", S+"values.rs:deser"), ("Store::deser", S+"store.rs:deser")],
 ["Value::deser", "Store::deser", "BinaryData::deser", "requests and files that sourisd reads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
