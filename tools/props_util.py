TESTS = ("The 12 stable tests set and get a handful of fixed keys; ")

prop("U01", "A hash map or set holds exactly what was set last under each key",
     "After any sequence of sets and clears, a lookup in a hash map returns the value last set under an equal key, or nothing if there was none since the last clear, and a set contains exactly the keys added; values, their order of insertion and the keys survive growth of the table. Keys are arbitrary bytes of a given length and are equal when they are the same bytes, after folding ASCII letter case if the map ignores case and after dropping trailing white space if it trims. No key, however long or however it hashes, is confused with an unequal one.",
     ["inputs", "histories"], "every history of set, get, add, has and clear, for every combination of map properties, initial limit and element size",
     TESTS + "growth, collisions, binary keys, clearing and re-use in arbitrary order are never combined.",
     ["util/hashmap.c", "util/hashmap.h"],
     [("open addressing and growth", "util/hashmap.c: _get_entry, _increase_limit"),
      ("case folding and trimming hashes", "util/hashmap.c: _hash, _hash_nocase, _hash_rtrim"),
      ("set", "util/hashmap.c: set_nadd, set_nhas")],
     MODEL, "random histories against a reference table indexed by normalized key; keys up to 700 bytes, up to 1500 distinct; includes keys with equal 64 bit hashes")

prop("U02", "A multimap returns all values of a key, in the order they were added",
     "After any sequence of sets and clears, a lookup in a multimap returns every value added under an equal key since the last clear, in the order of adding, and nothing for other keys. Key equality is as for hash maps (same bytes, modulo letter case or trailing white space where the map's properties say so). Growth and collisions lose, duplicate or reorder nothing.",
     ["inputs", "histories"], "every history of set, get and clear over every property combination",
     TESTS + "they never grow a multimap past its limit nor interleave keys that collide.",
     ["util/hashmap.c", "util/hashmap.h"],
     [("value lists", "util/hashmap.c: multimap_nset"), ("growth", "util/hashmap.c: _increase_limit")],
     MODEL, "random histories against per-class value lists")

prop("U03", "A composite map tells keys of several parts apart part by part",
     "After any sequence of sets and clears, a lookup in a composite map returns the value last set under a key whose parts are all equal, part by part, to the parts asked for, and nothing otherwise. Parts are compared as in hash maps, and two keys whose concatenations agree but whose parts do not are different keys. This survives growth and collisions.",
     ["inputs", "histories"], "every history of set, get and clear over keys of every arity",
     TESTS + "they never try keys whose concatenated parts coincide, nor growth.",
     ["util/hashmap.c", "util/hashmap.h"],
     [("composite keys", "util/hashmap.c: compositemap_set, compositemap_get, _get_entry_composite")],
     MODEL, "random histories against a table of tuples of normalized parts")

prop("U04", "A vector behaves as the sequence its operations describe",
     "After any sequence of pushes, pops, inserts, erases, sets, extensions, resizes, reservations, sorts and clears, single or in blocks, anywhere in the vector and for every element size, the vector's size and contents are those of the sequence so described. Elements that growth adds by resize-and-zero are zero, capacity is never below size, and no operation touches memory that is not the vector's.",
     ["inputs", "histories"], "every history of vector operations, every element size and position",
     "No stable test uses a vector directly; off-by-one errors at positions, sizes and growth need histories.",
     ["util/vec.c", "util/vec.h"],
     [("insert and erase in blocks", "util/vec.c: vec_insert_at, vec_erase_at"), ("growth", "util/vec.c: vec_reserve, vec_resize")],
     MODEL, "random histories against a plain array after each operation")

prop("U05", "A flex holds the byte strings put in it, each intact and in order",
     "After any sequence of pushes, inserts, removes, pops, reserves, resizes, shrinks and clears, a flex contains exactly the items so described: each with its bytes, its length and its position. Numbers pushed as text read as printf would print them. Views of all items stay consistent with each other after growth.",
     ["inputs", "histories"], "every history of flex operations over items of any bytes and length, empty ones included",
     "No test covers flex; offsets go wrong only for particular mixes of lengths and positions.",
     ["util/flex.c", "util/flex.h"],
     [("items as offset and length", "util/flex.c: flex_push_back, flex_insert, flex_remove"), ("views", "util/flex.c: flex_at, flex_pair_at")],
     MODEL, "random histories against an array of byte strings")

prop("U06", "A fifo used by one thread is a bounded first-in first-out queue",
     "For any sequence of adds, gets, peeks, block transfers, iterations, resizes and resets by one thread, elements leave a fifo in the order in which they entered, each exactly once and intact. What it reports as available, receivable, empty or full agrees with what it holds, and block transfers move exactly as many elements as they say. Wrapping around the end of the buffer changes nothing.",
     ["inputs", "histories"], "every history of fifo operations, every size and element size",
     "No stable test covers the fifo; wrap-around faults need particular positions of head and tail.",
     ["util/fifo.c", "util/fifo.h"],
     [("head and tail", "util/fifo.c: fifo_add, fifo_get, fifo_nadd, fifo_nget"), ("iteration", "util/fifo.c: fifo_begin, fifo_iter, fifo_update")],
     MODEL, "random histories against a queue of numbered elements")

prop("U07", "Between threads a fifo loses, repeats and reorders nothing, and ends",
     "With any number of producing threads and a consuming one, whatever the schedule, every element added arrives exactly once and intact, and those of each producer arrive in the order it added them. A thread that waits for elements, for either or both of two fifos, or for room, is woken once what it waits for is there or the fifo was closed, so that nobody waits forever and nothing is left behind. All of this is free of data races on what the fifo transfers.",
     ["schedules", "inputs"], "every schedule of producers, consumer and closing thread, every buffer size and batch size",
     "No test runs two threads on a fifo; lost wake-ups and torn elements need particular interleavings.",
     ["util/fifo.c", "util/fifo.h"],
     [("locking and wake-ups", "util/fifo.c: fifo_add, fifo_wait_for_add, fifo_wait_for_add_either, fifo_wait_for_add_both, fifo_wait_for_get"), ("closing", "util/fifo.c: fifo_set_open")],
     "runtime monitoring of real threads: per-element accounting, a no-progress watchdog, injected delays, ThreadSanitizer",
     "explores schedules by stress and injected delays, not exhaustively")

prop("U08", "A node list is the sequence its operations describe, freed once",
     "After any sequence of pushes, enqueues, pops, removals, deletions and moves between lists, a node list contains exactly the nodes so described, in order, with head, tail and neighbour links consistent. Every operation hands back the data it says it does. Freeing a list frees every node once, and its data only where asked to.",
     ["inputs", "histories"], "every history of list operations, at every position of the list",
     "No test covers the lists; link errors show only for particular positions.",
     ["util/node.c", "util/node.h"],
     [("linking", "util/node.c: node_push, node_enqueue, node_remove, node_import")],
     MODEL, "random histories against an array, links checked in both directions")

prop("U09", "Traversing a graph visits each node under its roots once, in order",
     "In a directed graph in which no node has two parents, a traversal visits every node that can be reached from a root exactly once, parents before their children, and then ends; it can be repeated with the same result. Roots are the nodes marked as such or, if none are, those without a parent. Adding nodes, taking over another graph and removing nodes keeps that true.",
     ["inputs", "histories"], "every forest and every sequence of additions, consumptions and removals",
     "No test traverses a graph.",
     ["util/dgraph.c", "util/dgraph.h"],
     [("traversal", "util/dgraph.c: dgraph_traverse, dgraph_traverse_reset"), ("roots", "util/dgraph.c: dgraph_get_roots")],
     MODEL, "random forests against a reference walk; nodes with several parents are left to the end-to-end checks")

prop("U10", "Strings hold their bytes, and comparisons agree with equality",
     "After any sequence of copies, appends, replacements, formatting, resizes and moves, a string contains exactly the bytes so described, followed by a NUL, and its reported size is their number. The four comparisons of string views (plain, ignoring case, and each ignoring trailing white space) are consistent orders that report equality exactly when the bytes are equal under those rules. No operation reads or writes outside the strings involved.",
     ["inputs", "histories"], "every history of string operations and every pair of string views",
     "No test covers strings directly; errors at lengths, overlaps and terminators need particular sizes.",
     ["util/stringy.c", "util/stringview.c", "util/stringy.h", "util/stringview.h"],
     [("replacement", "util/stringy.c: string_find_replace"), ("comparisons", "util/stringview.c: stringview_compare and its variants")],
     MODEL, "random histories against a byte buffer; comparisons on all pairs of random sets; plain comparisons on bytes without NUL")

prop("U11", "Helpers parse numbers whole, and count and search within bounds",
     "Parsing a text as an integer or a float succeeds exactly when the whole text is such a number within range, with its value, and reports failure otherwise. Counting a character and searching a text within a limit look at no byte behind the limit or the end and answer as if by definition. File name helpers return the name or extension that the name's last dot and slash define, and a directory listing names its entries.",
     ["inputs"], "every text, character and limit",
     "No test covers the helpers.",
     ["util/util.c", "util/util.h"],
     [("numbers", "util/util.c: str2long, str2double"), ("searching", "util/util.c: charcount, strnstr"), ("file names", "util/util.c: getext, getnoext, dir_list_files")],
     MODEL, "random texts against independent definitions")

prop("U12", "Fields convert between types without changing what they denote",
     "Converting a field gives, for integer, float and text alike, the value that the source denotes: a text must be a number as a whole or the conversion fails, an integer or float reads as printf's %ld or %f would print it, and a float becomes an integer by truncation. The common type of two different types is float for an integer and a float, and the other one where one is text. A variable assigned or imported holds the value in its own type, cut or padded to its declared length, until it is assigned again or cleared, when it is null.",
     ["inputs"], "every value and pair of types, every declared length",
     "No stable test converts fields; the end-to-end tests of the repository need a library that is not installed.",
     ["lib/field.c", "lib/variable.c", "lib/field.h", "lib/variable.h"],
     [("conversions", "lib/field.c: field_to_int, field_to_float, field_to_string"), ("types", "lib/field.c: field_determine_type"), ("variables", "lib/variable.c: variable_import, variable_clear")],
     MODEL, "random values against reference conversions")

prop("U13", "An exit or signal removes exactly the temporary files still registered",
     "Whatever the order in which temporary files are registered, dropped from the list or removed, an interrupt, termination, hang-up or quit signal, or a clean exit, removes exactly those files that are still registered and touches no other. The process then ends with a failure status after a signal.",
     ["histories", "crash_points"], "every history of registrations and removals, ended by any of the handled signals or an exit",
     "No test registers a file, let alone sends a signal.",
     ["lib/fqlsig.c", "lib/fqlsig.h"],
     [("the list of files", "lib/fqlsig.c: fqlsig_tmp_push, fqlsig_tmp_remove_node"), ("handlers", "lib/fqlsig.c: fqlsig_init_sig")],
     "process-level monitoring: random histories in a child that is then signalled, and an audit of the files left",
     "files in a scratch directory, as an unprivileged user")
