GENERAL = ("Trusted: clang's IR, the symbolic executor (engine/symx.cpp), Z3 and the C library model (harness/libc.c); sampled paths and every "
           "counterexample are replayed on the natively compiled sources under sanitizers.")
P = []
NA = {}


def prop(id, title, statement, over, q, why, files, mech, obs=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why,
                  files=["srcs/toolbox/" + f if "/" not in f else f for f in files], mech=mech, obs=list(obs)))


I, H, F, C, S = "inputs", "histories", "fault_sequences", "configurations", "schedules"

prop("A01", "Dynamic arrays are the sequence of what was stored, at every index and type",
     "After any sequence of stores, reads, resizes and growth, an array of any element type returns at each index the value last stored there (or the type's zero where nothing was stored), and never touches memory outside its storage. A request that cannot be met for want of memory or because of its size is refused and leaves every stored element as it was.",
     [H, I, F], "all histories of stores, loads and resizes at all indices, for each of the supported element types, with or without an allocation failing",
     "Tests store ascending indices in a few types and never fail an allocation; growth, overwritten gaps and huge indices need every history and every index.",
     ["array.c"], [("automatic growth and zero fill", "u_array_resize/__resize in array.c"), ("typed accessors", "U_ARRAY_GETSET_F in array.c")],
     ["u_array_set_*", "u_array_get_*", "u_array_resize"])
prop("B01", "Base64 decoding inverts encoding for every byte string",
     "Encoding any byte string yields its RFC 4648 text, of the announced length, and decoding that text yields the very same bytes and length.",
     [I], "all byte strings up to the bound, every length modulo three, exact-fit output buffers",
     "The test encodes a handful of fixed vectors; the property is about every byte value in every position.",
     ["b64.c"], [("block encoder and decoder", "u_b64_encode/u_b64_decode in b64.c")], ["u_b64_encode", "u_b64_decode"])
prop("B02", "Base64 functions never exceed the caller's buffer and reject malformed text",
     "For any input text and any output capacity, encoding and decoding write only inside the given buffer; either they succeed with the right result, or they report failure. Text that is not well-formed base64 is refused, whatever bytes it is made of.",
     [I], "all byte strings offered as base64, all output capacities around and below the needed one, all 64-bit lengths",
     "Tests only decode well-formed text into ample buffers.",
     ["b64.c"], [("capacity and alphabet checks", "u_b64_decode, b64_block in b64.c")], ["u_b64_encode", "u_b64_decode"])
prop("U01", "A growable buffer holds exactly the bytes appended, or fails unchanged",
     "After any sequence of appends, sets, clears, shrinks, reservations, formatted appends and detaches, a buffer's content and length are those of the concatenated data, followed by a terminator that is not part of the length. An operation that fails, for want of memory or of anything else, leaves the previous content readable and intact, and nothing leaks.",
     [H, I, F], "all operation sequences up to the bound over arbitrary bytes and sizes, with any one allocation or formatting call failing",
     "Buffers are only exercised indirectly by the tests; growth boundaries, embedded zero bytes and failures need all histories and sizes.",
     ["buf.c"], [("reserve and append", "u_buf_reserve, u_buf_append in buf.c"), ("formatted append loop", "u_buf_vprintf in buf.c")],
     ["u_buf_append", "u_buf_set", "u_buf_printf", "u_buf_reserve", "u_buf_shrink", "u_buf_detach"])
prop("S01", "Strings equal the concatenation of their parts and are always terminated",
     "After any sequence of creation, append, set, formatted write, clear, truncation, reservation, trim, copy and detach, a string's text and length are exactly the reference ones and the text is zero-terminated. A failing operation reports failure and leaves the previous text as it was.",
     [H, I, F], "all operation sequences up to the bound over arbitrary characters and lengths, with any one allocation or formatting call failing",
     "Tests make a few fixed calls; they sample neither lengths around growth boundaries nor failures.",
     ["str.c"], [("growth and append", "u_string_append, u_string_reserve in str.c"), ("formatting", "u_string_vprintf in str.c")],
     ["u_string_append", "u_string_set", "u_string_sprintf", "u_string_set_length", "u_string_detach_cstr"])
prop("L01", "A list behaves as the sequence it represents under insert, delete and iteration",
     "After any sequence of insertions at any position, deletions by value or by position, clears and deletions during iteration, the list's count, positional reads and iteration order are those of the corresponding sequence. Operations on missing elements or positions fail without effect, and nothing leaks.",
     [H, F], "all histories up to the bound, all positions in and out of range, repeated values, with any one allocation failing",
     "Tests insert and iterate over a few fixed sequences.",
     ["list.c"], [("linked list of pointers", "u_list_insert, u_list_del, u_list_iterator in list.c")], ["u_list_*"])
prop("P01", "A priority queue always yields the entry with the right extreme priority",
     "Whatever was pushed, in whatever order, each removal or peek yields an entry whose priority is the extreme one among those held, with the value it was pushed with, and the queue holds exactly what was pushed and not removed. Pushing onto a full queue and removing from an empty one are told apart and change nothing.",
     [H, I], "all histories up to the bound over all finite and infinite priorities, ties included, both orders",
     "The tests sort random numbers once; they do not interleave pushes with removals nor check ties and the full or empty cases.",
     ["pqueue.c"], [("binary heap", "u_pq_push, u_pq_del* in pqueue.c")], ["u_pq_push", "u_pq_delmin", "u_pq_delmax"])
prop("T01", "A search tree holds exactly the pairs pushed and not deleted, in key order",
     "After any sequence of pushes, deletions, searches and rebalancing, under any insertion strategy and any random draw, searching finds precisely the keys present with their last value, in-order traversal visits them once each in key order, and rotations never lose or reorder a node, and balancing makes the tree as low as it can be. The number of nodes reported is the number present, and a failed allocation leaves a valid tree.",
     [H, I, F], "all histories up to the bound, all keys, all random outcomes, string, opaque and pointer data, with any one allocation failing",
     "Tests push random keys and search or sort; deletion of inner nodes, duplicate keys, rotations and failures are not covered.",
     ["bst.c"], [("node insertion and rotation", "bst.c insertion helpers"), ("deletion and balance", "u_bst_delete/u_bst_balance in bst.c")], ["u_bst_push", "u_bst_find", "u_bst_delete", "u_bst_foreach"])
prop("R01", "A ring buffer delivers written bytes in order, once, within its capacity",
     "For every interleaving of writes, reads, zero-copy reads and clears, with or without the contiguous or mirrored layouts, the bytes read are exactly the bytes accepted by writes, in order and without loss or duplication. Accepted and available amounts always add up to the capacity, requests beyond them are refused, and a failed creation leaks nothing.",
     [H, I, F], "all operation sequences up to the bound, all small capacities, all request sizes, each allocation or system call of the set-up failing",
     "Tests push one long stream through one size; wrap-around at every offset and set-up failures need every history.",
     ["rb.c"], [("read and write offsets", "u_rb_write, u_rb_read in rb.c"), ("contiguous allocation and double mapping", "rb.c set-up functions")], ["u_rb_write", "u_rb_read", "u_rb_ready", "u_rb_avail"])
prop("H01", "A hash map finds exactly the pairs put and not removed, whatever collides",
     "Under any sequence of puts, gets, deletions, clears, copies and automatic growth, for chained and open addressing and any hash function, a key is found if and only if it is present, with the value last put under it. The overwrite option decides what a put on a present key does, and counting and traversal see each pair exactly once.",
     [H, I, C], "all histories up to the bound, all keys of one character, every collision pattern, every combination of type, ownership and overwrite options",
     "The tests use fixed keys with few collisions, never delete then re-insert along a probe sequence, never copy.",
     ["hmap.c"], [("placement and probing", "u_hmap_put, __get in hmap.c"), ("growth", "__resize in hmap.c")], ["u_hmap_put", "u_hmap_get", "u_hmap_del", "u_hmap_copy"])
prop("H02", "A bounded hash map discards exactly the pair its policy designates",
     "A map limited to a number of pairs never holds more, and putting a new key into a full map discards one pair: the oldest put, the least recently used, one of the least used, or the one ordered first by the user's comparison, according to its policy. Overwriting, deleting and clearing keep the policy's records consistent with the pairs actually held.",
     [H, I, C], "all histories up to the bound, all limits up to three, all keys and values, the four policies",
     "The policy test runs one fixed scenario per policy, without deletions or overwrites in between.",
     ["hmap.c"], [("policy queue", "__queue_push*, __queue_pop*, __queue_del in hmap.c")], ["u_hmap_put", "u_hmap_get", "u_hmap_del"])
prop("H03", "A hash map releases every key and value it owns exactly once, failures included",
     "For keys and values given as pointers, strings or blocks, through the easy or the full interface, what the map owns is released once: on overwrite, refusal, deletion, discard, clear or destruction; copies are independent of the caller's memory. If an allocation fails, the operation fails cleanly and the ownership of what was not taken stays with the caller.",
     [H, F, C], "all histories up to the bound, all key and value kinds and options, any one allocation failing",
     "No test fails an allocation or counts releases.",
     ["hmap.c"], [("object creation and release", "u_hmap_o_new, __o_free, u_hmap_easy_put in hmap.c")], ["u_hmap_easy_put", "u_hmap_o_new", "u_hmap_free"])
prop("X01", "The lexer yields every character once, in order, with exact marks and lookahead",
     "For any text, the lexer's next, peek, skip and record operations follow the text character by character, report the end exactly once reached, and never read outside it. A recorded match is exactly the text between its marks, or a failure when it does not fit.",
     [I, H], "all texts and operation sequences up to the bound, whitespace skipping on or off, all byte values",
     "The tests scan three fixed strings.",
     ["lexer.c"], [("cursor and marks", "u_lexer_next, u_lexer_peek, u_lexer_record_* in lexer.c")], ["u_lexer_*"])
prop("J01", "JSON decoding accepts RFC 4627 texts, rejects the others, and is total",
     "Decoding any text terminates, touches no memory outside the text and its own objects, leaks nothing on failure, and succeeds exactly on the texts of the JSON grammar within the documented nesting and token limits. What is decoded has the types, names, values and order written in the text.",
     [I, F], "all texts up to the bound over a JSON alphabet and over arbitrary bytes, any one allocation failing",
     "The tests decode a list of good and bad examples.",
     ["json.c", "lexer.c"], [("recursive descent", "u_json_do_*/u_json_match_* in json.c")], ["u_json_decode"])
prop("J02", "JSON text written out is read back as the same tree",
     "Encoding any tree built through the interface gives a text that decodes to an equal tree, whatever bytes its strings and names contain that JSON can carry; what it cannot carry is refused. Encoding what was decoded from a text preserves its content, and walking a tree visits every item once, in order.",
     [I, H], "all trees up to the bound, all value kinds, all printable and escaped characters",
     "The tests re-encode a few fixed texts.",
     ["json.c"], [("encoder", "u_json_encode/u_json_do_encode in json.c")], ["u_json_encode", "u_json_decode", "u_json_set_val"])
prop("J03", "JSON tree edits and lookups agree with the tree's structure",
     "After any sequence of additions, removals, value changes and re-indexing, dotted lookups, iteration over arrays and objects, counts and typed getters return what the edited tree contains, with or without an index. Removing or freeing an item affects that item and its descendants only.",
     [H, I], "all edit sequences up to the bound on trees of objects, arrays and scalars, with and without index",
     "Tests index a fixed document and look up existing keys; they hardly edit.",
     ["json.c"], [("tree links", "u_json_add, u_json_remove in json.c"), ("cache index", "u_json_index, u_json_cache_get* in json.c")], ["u_json_add", "u_json_remove", "u_json_cache_get", "u_json_array_get_nth"])
prop("Y01", "URI parsing splits any URI as RFC 3986 does and rejects what is not one",
     "Splitting any text terminates without touching memory outside it; it succeeds only on texts the grammar derives, giving the components the grammar assigns, and fails on the others without leaking.",
     [I, F], "all texts up to the bound over the URI alphabet and over arbitrary bytes, any one allocation failing",
     "The tests split a couple of dozen fixed URIs.",
     ["uri.c"], [("recursive descent over the grammar", "u_uri_crumble and parse_* in uri.c")], ["u_uri_crumble"])
prop("Y02", "Composing a URI from its components and splitting it again gives them back",
     "For components legal in their positions, the composed text splits back into the same components, and composing what was split from a URI gives an equivalent URI.",
     [I], "all component values up to the bound, present or absent",
     "The tests compose a handful of fixed sets of components.",
     ["uri.c"], [("composition", "u_uri_knead in uri.c")], ["u_uri_knead", "u_uri_crumble"])
prop("C01", "Configuration parsing builds the tree the text describes, or reports an error",
     "Loading any text terminates without touching memory outside its own objects; well-formed text gives exactly the sections, keys and values it describes, in order, repeated keys included. Malformed text is reported and nothing leaks, also when reading or an allocation fails.",
     [I, F], "all texts up to the bound over the configuration alphabet and over arbitrary bytes, lines of any length around the line limit, read and allocation failures",
     "The tests load a few fixed files.",
     ["config.c"], [("line reader and section parser", "cs_getline, u_config_do_load in config.c")], ["u_config_load", "u_config_get_subkey*"])
prop("C02", "Configuration edits, lookups and save-and-reload agree",
     "After any sequence of additions, value changes and removals of keys and children, dotted and positional lookups return what the tree contains. Sorting keeps every child, walking visits every item once, and a change of a value that fails leaves the previous one. Saving the tree and loading the result gives an equal tree.",
     [H, I], "all edit sequences up to the bound, dotted and repeated keys, any printable values",
     "The tests save and reload one fixed tree.",
     ["config.c"], [("key tree", "u_config_set_key, u_config_get_subkey_nth in config.c"), ("writer", "u_config_save_to_buf in config.c")], ["u_config_set_key", "u_config_del_child", "u_config_save_to_buf"])
prop("C03", "Includes and variable references resolve to the named text and terminate",
     "A variable reference is replaced by the value of the key it names, and an include directive by the content of the named file, including dependent on or nested in others; a reference to a missing key stands for nothing, and unfinished references, missing files and files including themselves end in a reported error instead of a crash or an endless run.",
     [I, F], "all reference texts up to the bound, all include graphs of two files, read failures",
     "The tests have one include of each kind; they never recurse.",
     ["config.c"], [("include and substitution", "u_config_include, u_config_do_set_key in config.c")], ["u_config_load_from", "u_config_get_value"])
prop("E01", "Loading an environment file sets exactly the variables the file defines",
     "Loading any environment file reads the file that was named, whatever characters its name holds, and sets each variable it assigns, under the given prefix, to the value written there, whatever the length of its lines and whether or not the last line is terminated; comments and blank lines set nothing. A load that succeeds has set them all; a file that the shell cannot read, read failures and lack of memory make it fail. Malformed lines and failures never corrupt memory or leave anything open.",
     [I, F], "all outputs up to the bound, lines around the line limit, all file names up to the bound, open, read and allocation failures",
     "No test loads an environment file.",
     ["env.c"], [("line loop", "u_env_init in env.c")], ["u_env_init", "u_env_var"])
prop("F01", "Copying, moving, loading and dumping a file is complete or reported as failed",
     "When copying or moving a file, or dumping or loading one through a buffer, reports success, the destination holds the source's bytes exactly; if any system call on the way fails or is short, either the operation still completes or failure is reported, and the source of a move is never lost. No descriptor or stream stays open.",
     [F, I], "all file contents up to the bound, a failure or short count at every system call",
     "No test makes a system call fail.",
     ["fs.c", "buf.c", "misc.c"], [("copy loop", "u_copy, u_move in fs.c"), ("buffer load and save", "u_buf_load, u_buf_save in buf.c")], ["u_copy", "u_move", "u_buf_load", "u_buf_save", "u_load_file"])
prop("M01", "Text-to-number conversions return the written value or report failure",
     "Converting a text to an integer or floating number of each supported type succeeds exactly when the text denotes a number representable in that type, with that value, and otherwise fails leaving the caller's variable alone. Earlier calls never influence the outcome.",
     [I, H], "all texts up to the bound, boundary values of each type, any previous error indicator",
     "The test converts a few fixed texts for one type.",
     ["misc.c"], [("range checks", "u_atol, u_atoi, u_atoumax, u_atof in misc.c")], ["u_atoi", "u_atol", "u_atoumax"])
prop("M02", "Tokenizing returns exactly the tokens between delimiters, as many as there are",
     "For any text, delimiter set and token limit, splitting returns the tokens in order, their exact text and number, follows its documented rule for empty and quoted tokens, and never touches memory outside the text or leaks.",
     [I, F], "all texts and delimiter sets up to the bound, all token limits, any one allocation failing",
     "The tests split fixed texts.",
     ["misc.c"], [("tokenizer", "u_strtok, u_tokenize in misc.c")], ["u_strtok", "u_tokenize"])
prop("M03", "Bounded copies and path helpers respect bounds and terminate strings",
     "Bounded copying, concatenation, formatting, path composition and trimming write at most the stated size, always leave a terminated string equal to the (possibly truncated) result, and report truncation.",
     [I], "all texts up to the bound and all sizes around them",
     "The tests call them with ample buffers.",
     ["misc.c"], [("bounded copy", "u_strlcpy, u_strlcat, u_sstrncpy, u_snprintf, u_path_snprintf, u_trim in misc.c")], ["u_strlcpy", "u_strlcat", "u_path_snprintf", "u_trim"])
prop("M04", "Read and write helpers transfer every byte despite partial and interrupted calls",
     "Reading or writing a whole block through the helpers transfers all bytes in order exactly once however the system splits or interrupts the transfer, or reports failure or end of file with the number of bytes not transferred. Sleeping lasts the time asked for, whatever interrupts it.",
     [F, I], "all sequences of partial, interrupted, failing and end-of-file outcomes up to the bound",
     "No test makes the system split or interrupt a transfer.",
     ["misc.c", "net.c"], [("transfer loop", "u_io, u_write, u_read in misc.c")], ["u_read", "u_write", "u_net_writen", "u_net_readn"])
prop("W01", "Password databases authenticate exactly the recorded user and password pairs",
     "A user authenticates if and only if the current database has a record for that user whose (optionally hashed) password is the one given in full; comments, blank lines and malformed records grant nothing. A reload takes effect as a whole: if it fails, earlier records keep their meaning, and no input corrupts memory or leaks.",
     [I, H, F], "all database texts and credentials up to the bound, hashed and clear, with or without caching, load and allocation failures at every point",
     "The tests authenticate a few good and bad fixed pairs.",
     ["pwd.c"], [("line parser and record table", "u_pwd_load, u_pwd_retr in pwd.c"), ("credential check", "u_pwd_auth_user in pwd.c")], ["u_pwd_init_file", "u_pwd_auth_user"])
prop("G01", "A log message is delivered whole, once, with its severity, or reported as lost",
     "Any message within the documented length limit is delivered exactly once to the log destination in force, with its severity, context and full text; a longer one is discarded as a whole and reported to the caller. No memory outside is touched, the lock is balanced and the error indicator of the caller survives.",
     [I], "all message lengths around the limit, all severities and flags, both destinations",
     "Tests do not look at what is logged.",
     ["log.c"], [("message assembly", "u_log_write_ex in log.c")], ["u_log_write_ex", "u_console_write_ex"])
prop("N01", "Timed and plain connections succeed, fail or time out exactly as the system says",
     "Connecting with or without a time limit returns success only if the connection was established, failure or time-out otherwise, waits out interruptions without exceeding the limit, and leaves the descriptor's blocking mode as it was on every outcome. The error reported is that of the connection attempt.",
     [F, S], "all outcome sequences of the system calls involved, up to the bound on interruptions",
     "No test makes these system calls fail, block or be interrupted.",
     ["net.c"], [("non-blocking connect and wait", "u_connect_ex, u_connect in net.c")], ["u_connect", "u_connect_ex"])
prop("N02", "Network sockets are built as their description says, or refused cleanly",
     "An address description yields a socket of the family, type, host, port or path written in it, passive or active as asked, trying the resolved addresses in turn until one works; malformed descriptions and failures of any system call are reported, leaving no descriptor or memory behind. Printing an address gives its host and port or its path in full when there is room. Setting or clearing the blocking mode of a descriptor changes nothing else.",
     [I, F], "all descriptions up to the bound, a failure at every system call and allocation",
     "The tests resolve a few fixed addresses.",
     ["net.c"], [("translation and resolution", "u_addr_set_from_uri and resolvers in net.c"), ("socket set-up", "u_sock/da_sock in net.c")], ["u_addr_new", "u_addr_set_*", "u_net_sd"])
prop("K01", "The test runner runs cases in dependency order and reports true outcomes",
     "For any set of cases and dependencies, sequential or parallel, every case whose dependencies succeeded is run exactly once after them, cases depending on a failed or skipped one are not run, and circular dependencies are refused. The reported outcome of each case, and the overall one, is the one it really had, whether it returned, was aborted by a signal, could not be run or was lost.",
     [C, S, F], "all dependency graphs up to the bound, all outcomes and termination orders of the cases, fork and wait failures",
     "The suite is run by this very code: it exercises one graph and one schedule.",
     ["test.c"], [("dependency ranking", "u_test_sequencer in test.c"), ("child reaping", "u_test_cases_reap in test.c")], ["u_test_run", "u_test_case_depends_on"])
prop("K02", "A test report is whole, well-formed and where asked for, or the run fails",
     "The report tells the run, each suite and each case of it exactly once, each case within its suite, with true counts and outcomes; the XML form is well-formed and names read back from it are the ones given, whatever characters they hold. Reporters installed by the program are called for the run, each suite and each case, nested alike. It is written to the file named or the standard output. If it can't be opened, written or closed, or a reporter fails, the run fails; the file is closed in any case, the standard output never.",
     [I, F], "all names up to the bound, all outcomes, a failure at every operation on the file and in every reporter",
     "The tests write a report nobody reads.",
     ["test.c"], [("the report", "u_test_reporter in test.c"), ("XML", "u_test_report_xml, u_test_suite_report_xml, u_test_case_report_xml in test.c"), ("options", "u_test_getopt in test.c")], ["u_test_run", "u_test_set_outfn", "u_test_set_u_test_rep", "u_test_set_u_test_suite_rep", "u_test_set_u_test_case_rep"])
prop("Z01", "Memory functions follow the allocator installed by the program",
     "Every allocation and release made on behalf of the program goes through the functions it installed, zeroed allocations are zero over their whole size, a duplicated string or block equals its source, and an impossible size is refused.",
     [I, F], "all sizes, all contents up to the bound, any one allocation failing",
     "No test installs an allocator.",
     ["memory.c", "misc.c"], [("function hooks", "u_memory_set_* in memory.c")], ["u_malloc", "u_calloc", "u_zalloc", "u_realloc", "u_strdup", "u_strndup", "u_memdup"])

prop("Q01", "Replacements of missing C library functions do what those functions do",
     "Where the system lacks them, the library's own strlcpy, strlcat, strsep, strtok_r, fnmatch, timegm, mkstemps and vsyslog do, for every argument, what the functions of that name are documented to do; none touches memory beyond what it was given, opens a file that already exists, or disturbs the program's environment.",
     [I, F], "all texts, buffer sizes, patterns and flags up to the bound, all times of a day, all names taken up to the bound",
     "The tests run on a system that has them all.",
     ["srcs/missing/strlcpy.c", "srcs/missing/strlcat.c", "srcs/missing/strsep.c", "srcs/missing/strtok_r.c", "srcs/missing/fnmatch.c", "srcs/missing/timegm.c", "srcs/missing/mkstemps.c", "srcs/missing/vsyslog.c"],
     [("pattern matching", "fnmatch, rangematch in fnmatch.c"), ("exclusive creation", "_gettemp in mkstemps.c")], ["strlcpy", "strlcat", "strsep", "strtok_r", "fnmatch", "timegm", "mkstemps", "vsyslog"])
