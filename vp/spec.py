from .driver import Q
SPEC = {}


def arr(name, T, TT, **kw):
    return Q(name, "array.c", ["array.c", "memory.c"], defs=["T=" + T, "TT=U_ARRAY_TYPE_" + TT, "SET=u_array_set_" + TT.lower(), "GET=u_array_get_" + TT.lower()] + kw.pop("extra", []), bounds="3 stores of arbitrary values at indexes up to 5 into arrays of 1 to 3 elements, then every element", **kw)


SPEC["A01"] = {"queries": [
    arr("int", "int", "INT"), arr("char", "char", "CHAR"), arr("u_char", "unsigned char", "U_CHAR"), arr("short", "short", "SHORT"),
    arr("u_short", "unsigned short", "U_SHORT"), arr("u_int", "unsigned int", "U_INT"), arr("long", "long", "LONG"),
    arr("u_long", "unsigned long", "U_LONG"), arr("float", "float", "FLOAT"), arr("double", "double", "DOUBLE"),
    arr("bool", "_Bool", "BOOL", extra=["ISBOOL"]), arr("long_long", "long long", "LONG_LONG"), arr("u_long_long", "unsigned long long", "U_LONG_LONG"),
    arr("intmax", "intmax_t", "INTMAX"), arr("u_intmax", "uintmax_t", "U_INTMAX"),
    Q("ptr", "array.c", ["array.c", "memory.c"], defs=["H_PTR"], bounds="pointers, at indexes up to 5"),
    arr("oom", "int", "INT", extra=["FAILS=3"]),
    Q("extreme", "array.c", ["array.c", "memory.c"], defs=["H_EXTREME", "HEAP=64"], bounds="every 64-bit element count and index in a heap of finite size"),
]}
SPEC["B01"] = {"queries": [
    Q("round", "b64.c", ["b64.c"], defs=["H_ROUND", "N=10"], tdefs=["H_ROUND", "N=18"], bounds="every byte string of up to 10 bytes (18 thorough), exact-fit output buffers"),
    Q("long", "b64.c", ["b64.c"], defs=["H_LONG"], steps=300000000, bounds="byte strings of 33 lengths from 47 to 65536, four arbitrary bytes at an end or in the middle; one character of the text spoiled"),
]}
SPEC["B02"] = {"queries": [
    Q("any", "b64.c", ["b64.c"], defs=["H_ANY", "N=8", "CAP=7"], tdefs=["H_ANY", "N=12", "CAP=10"], bounds="every text of up to 8 arbitrary bytes (12 thorough) into every capacity up to 7 (10)"),
    Q("enc", "b64.c", ["b64.c"], defs=["H_ENC", "N=7", "CAP=14"], tdefs=["H_ENC", "N=12", "CAP=20"], bounds="every block of up to 7 bytes (12 thorough) encoded into every capacity up to 14 (20)"),
    Q("args", "b64.c", ["b64.c"], defs=["H_ARGS"], bounds="every 64-bit input length and capacity"),
]}
J = ["json.c", "lexer.c", "hmap.c", "memory.c", "misc.c", "str.c"]
SPEC["J01"] = {"queries": [
    Q("any", "json.c", J, defs=["H_DEC", "H_ANY", "N=5"], tdefs=["H_DEC", "H_ANY", "N=6"],
      bounds="every text of up to 5 (6 thorough) arbitrary bytes"),
    Q("in", "json.c", J, defs=["H_DEC", "N=4"], tdefs=["H_DEC", "N=5"],
      bounds="every text made of up to 4 (5 thorough) arbitrary bytes inside each of seven contexts (array, object value, key, nested array, string, escape, literal)"),
    Q("struct", "json.c", J, defs=["H_DEC", "H_STRUCT", "N=6"], tdefs=["H_DEC", "H_STRUCT", "N=8"],
      bounds="every text of up to 6 (8 thorough) structural characters, quotes, digits and spaces"),
    Q("num", "json.c", J, defs=["H_DEC", "H_NUM", "N=6"], tdefs=["H_DEC", "H_NUM", "N=8"],
      bounds="every text of up to 6 (8 thorough) signs, dots, exponents and digits as an array or object value"),
    Q("string", "json.c", J, defs=["H_DEC", "H_STRING", "N=6"], tdefs=["H_DEC", "H_STRING", "N=8"],
      bounds="every text of up to 6 (8 thorough) backslashes, quotes and escape letters inside a value or a key"),
    Q("nest", "json.c", J, defs=["H_DEC", "H_NEST", "N=4"], bounds="nesting around the limit of 16"),
    Q("token", "json.c", J, defs=["H_DEC", "H_TOK", "N=4"], bounds="strings, keys and numbers of lengths around the token limit"),
    Q("oom", "json.c", J, defs=["H_DEC", "FAILS=8", "N=2"], tdefs=["H_DEC", "FAILS=10", "N=3"], bounds="up to 2 (3 thorough) arbitrary bytes in context, any one allocation failing"),
]}
SPEC["J02"] = {"queries": [
    Q("atom", "json2.c", J, defs=["H_ATOM", "N=4"], tdefs=["H_ATOM", "N=6"],
      bounds="every string and number value of up to 4 (6 thorough) arbitrary bytes offered for creation, lengths around the token limit (but for the limit itself), boundary integers, some reals, truth values and null, inside an array or an object"),
    Q("tree", "json2.c", J, defs=["H_TREE", "NIT=3", "KN=2"], tdefs=["H_TREE", "NIT=4", "KN=2"],
      bounds="every tree of 3 items (4 thorough) in a container, of all types, made by type or by constructor, one name of up to 2 arbitrary characters, names where they mean nothing"),
]}
SPEC["J03"] = {"queries": [
    Q("edit", "json2.c", J, defs=["PRE=2", "NOPS=3"], tdefs=["PRE=2", "NOPS=4"],
      bounds="every sequence of 3 operations (4 thorough) out of add/remove/set/index/unindex/set by name, on any item of every tree grown from a container of two items"),
    Q("names", "json2.c", J, defs=["H_NAMES", "LEN=2"], tdefs=["H_NAMES", "LEN=3"], bounds="an object of two numbers, arrays or objects with every pair of keys of up to 2 (3 thorough) characters out of a . [ 1 ], indexed or not"),
    Q("nlong", "json2.c", J, defs=["H_NAMES", "LONG"], bounds="the same with keys around the longest, two of which don't fit in a full name"),
    Q("wide", "json2.c", J, defs=["H_WIDE"], bounds="arrays and objects of 9 to 12, 100, 101 and 130 items, read or made, one removed, indexed before and after"),
    Q("noom", "json2.c", J, defs=["H_NAMES", "LEN=1", "FAILS=12"], tdefs=["H_NAMES", "LEN=1", "FAILS=24"], bounds="the same with keys of up to 1 character, any one allocation of the indexing failing"),
]}
BU = ["buf.c", "memory.c", "misc.c", "str.c"]
SPEC["U01"] = {"queries": [
    Q("seq", "buf.c", BU, defs=["H_SEQ", "NOPS=3", "DMAX=20"],
      tdefs=["H_SEQ", "NOPS=4", "DMAX=20"],
      bounds="every sequence of 3 operations (4 thorough) out of append/set/clear/shrink/reserve/printf/detach, data blocks of 0-2 and 20 arbitrary bytes, any 64-bit shrink length, none or any one allocation failing"),
    Q("printf", "buf.c", BU, defs=["H_PRINTF", "N=300"], tdefs=["H_PRINTF", "N=1200"],
      bounds="formatted output of every length 1-300 (1200 thorough) appended to every fill/capacity of a small set"),
    Q("reserve", "buf.c", BU, defs=["H_RESERVE"], bounds="every 64-bit capacity request, empty or non-empty buffer, a heap of finite size"),
    Q("pfail", "buf.c", BU, defs=["H_PFAIL"], rename=["vsnprintf"], bounds="any one of the formatting calls failing"),
]}
ST = ["str.c", "memory.c", "misc.c"]
SPEC["S01"] = {"queries": [
    Q("seq", "str.c", ST, defs=["H_SEQ", "NOPS=3"], tdefs=["H_SEQ", "NOPS=4"],
      bounds="every sequence of 3 operations (4 thorough) out of append/set/clear/set_length/reserve/printf/sprintf/trim/copy on strings of up to 3 arbitrary characters, none or any one allocation failing"),
    Q("printf", "str.c", ST, defs=["H_PRINTF", "N=300"], tdefs=["H_PRINTF", "N=1200"],
      bounds="formatted output and appended text of every length 0-300 (1200 thorough)"),
    Q("pfail", "str.c", ST, defs=["H_PFAIL"], rename=["vsnprintf"], bounds="any one of the formatting calls failing"),
]}
SPEC["L01"] = {"queries": [
    Q("seq", "list.c", ["list.c"], defs=["NOPS=4"], tdefs=["NOPS=5"],
      bounds="every sequence of 4 operations (5 thorough) out of add/insert/del/del_n/clear/delete-while-iterating, any element values (repetitions included), every position, none or any one allocation failing"),
]}
SPEC["P01"] = {"queries": [
    Q("keys", "pq.c", ["pqueue.c"], defs=["H_SEQ", "NOPS=5", "CAP=3"], tdefs=["H_SEQ", "NOPS=7", "CAP=5"],
      bounds="every sequence of 5 operations (7 thorough) on queues of capacity up to 3 (5), every double but NaN as key, allocation failures at creation"),
    Q("seq", "pq.c", ["pqueue.c"], defs=["H_SEQ", "COARSE", "NOPS=6", "CAP=4"], tdefs=["H_SEQ", "COARSE", "NOPS=8", "CAP=5"],
      bounds="every sequence of 6 operations (8 thorough) on queues of capacity up to 4 (5), keys out of 256 doubles spanning the whole range"),
    Q("sort", "pq.c", ["pqueue.c"], defs=["H_SORT", "COARSE", "CAP=6"], tdefs=["H_SORT", "COARSE", "CAP=7"],
      bounds="6 (7 thorough) pushes then evicted one by one, keys out of 256 doubles spanning the whole range"),
    Q("extreme", "pq.c", ["pqueue.c"], defs=["H_EXTREME", "CAP=2"], bounds="every 64-bit capacity beyond the available memory"),
]}
SPEC["T01"] = {"queries": [
    Q("string", "bst.c", ["bst.c"], defs=["NOPS=4", "FAILS=-1"], rename=["rand", "srand", "getpid"], tdefs=["NOPS=5", "FAILS=-1"],
      bounds="every sequence of 4 operations (5 thorough) out of push/delete/search/balance, any one-character string keys (repetitions included), bottom, top and randomized insertion with any random draw"),
    Q("opaque", "bst.c", ["bst.c"], defs=["H_OPAQUE", "NOPS=4", "FAILS=-1"], rename=["rand", "srand", "getpid"], tdefs=["H_OPAQUE", "NOPS=5", "FAILS=-1"],
      bounds="the same with opaque keys and values copied by size"),
    Q("tree", "bst.c", ["bst.c"], defs=["H_OPAQUE", "PRE=4", "NOPS=5", "FAILS=-1"], rename=["rand", "srand", "getpid"], tdefs=["H_OPAQUE", "PRE=5", "NOPS=6", "FAILS=-1"],
      bounds="every tree made of 4 pushes (5 thorough) of any keys in any order, then any operation"),
    Q("balance", "bst.c", ["bst.c"], rename=["rand", "srand", "getpid"], defs=["H_OPAQUE", "BAL=7", "NOPS=7"], tdefs=["H_OPAQUE", "BAL=8", "NOPS=8"],
      bounds="6 and 7 keys (7 and 8 thorough) pushed in every order, at the bottom or the top, then balanced, every search"),
    Q("oom", "bst.c", ["bst.c"], defs=["NOPS=3", "FAILS=8"], rename=["rand", "srand", "getpid"], tdefs=["NOPS=4", "FAILS=9"],
      bounds="every sequence of 3 operations (4 thorough) with none or any one allocation failing"),
    Q("types", "bst.c", ["bst.c"], defs=["H_TYPES", "NOPS=0", "PUSHES=2", "FAILS=7"], rename=["rand", "srand", "getpid"], tdefs=["H_TYPES", "NOPS=0", "PUSHES=3", "FAILS=10"],
      bounds="string, opaque and pointer keys and values, owned by the tree or not, 2 pushes (3 thorough) of arbitrary 2-byte keys and 3-byte values, a deletion, a balancing, none or any one allocation failing"),
]}
SPEC["R01"] = {"queries": [
    Q("seq", "rb.c", ["rb.c", "misc.c"], defs=["H_SEQ", "SZ=3", "NOPS=5"], tdefs=["H_SEQ", "SZ=4", "NOPS=6"],
      bounds="every sequence of 5 operations (6 thorough) out of write/read/no-copy read/clear on buffers of every size up to 3 bytes (4), contiguous or not, any bytes, any request sizes up to one past the buffer's; allocation failures at creation"),
    Q("extreme", "rb.c", ["rb.c", "misc.c"], defs=["H_EXTREME"], bounds="every 64-bit size beyond the available memory"),
    Q("mmap", "rb.c", ["rb.c", "misc.c"], defs=["H_MMAP"], rename="mmap munmap mkstemp unlink remove close ftruncate sysconf getpagesize".split(),
      bounds="sizes of up to 4 pages, any one system call of the set-up failing; the mirrored mapping is checked as a page table (its aliasing is not executed)"),
]}
HM = ["hmap.c", "memory.c", "misc.c", "str.c"]
SPEC["H01"] = {"queries": [
    Q("strong", "hmap.c", HM, defs=["H_STRONG", "PRE=0", "NOPS=4", "NKIND=4"], tdefs=["H_STRONG", "PRE=0", "NOPS=5", "NKIND=4"],
      bounds="every sequence of 4 operations (5 thorough) out of put/get/del/clear/copy, any one-character keys, chained and open addressing, owning or not, overwriting or not, a hash that makes keys collide and wrap around"),
    Q("weak", "hmap.c", HM, defs=["H_WEAK", "PRE=0", "NOPS=3", "NKIND=2"], tdefs=["H_WEAK", "PRE=0", "NOPS=4", "NKIND=2"],
      bounds="every sequence of 3 operations (4 thorough) with a weak custom hash (rehashed by the library)"),
    Q("default", "hmap.c", HM, defs=["PRE=0", "NOPS=3", "NKIND=4", 'KEYS="#&7\\001\\377"'], tdefs=["PRE=0", "NOPS=4", "NKIND=4", 'KEYS="#&7\\001\\377"'],
      bounds="every sequence of 3 operations (4 thorough) with the default hash, keys out of five, two pairs of which collide"),
    Q("grow", "hmap.c", HM, defs=["PRE=9", "NOPS=2", "H_STRONG", "NKIND=3"], tdefs=["PRE=9", "NOPS=3", "H_STRONG", "NKIND=3"],
      bounds="a map loaded up to the resize threshold, then every sequence of 2 operations (3 thorough) with any keys"),
]}
SPEC["H02"] = {"queries": [
    Q(p.lower(), "hmap.c", HM, defs=["H_STRONG", "PRE=0", "NOPS=3", "NKIND=3", "PCY=U_HMAP_PCY_" + p] + (["SYMVAL"] if p == "CUSTOM" else []),
      tdefs=["H_STRONG", "PRE=0", "NOPS=4", "NKIND=3", "PCY=U_HMAP_PCY_" + p] + (["SYMVAL"] if p == "CUSTOM" else []),
      bounds="every sequence of 3 operations (4 thorough) out of put/get/del/clear on maps of at most 1 or 2 pairs discarding by " + p + ", any keys" + (" and values" if p == "CUSTOM" else ""))
    for p in ("FIFO", "LRU", "LFU", "CUSTOM")] + [
    Q(p.lower() + "long", "hmap.c", HM, defs=["H_STRONG", "PRE=2", "NOPS=4", "NKIND=2", "PCY=U_HMAP_PCY_" + p, 'KEYS="*#A"'],
      tdefs=["H_STRONG", "PRE=2", "NOPS=5", "NKIND=2", "PCY=U_HMAP_PCY_" + p, 'KEYS="*#A"'],
      bounds="two pairs, then every sequence of 4 operations (5 thorough) out of put/get/del over three keys, two of which collide, discarding by " + p)
    for p in ("FIFO", "LRU", "LFU")]}
SPEC["H03"] = {"queries": [
    Q("own", "hmap3.c", HM, defs=["NOPS=3", "FAILS=10"], tdefs=["NOPS=4", "FAILS=14"],
      bounds="every sequence of 3 operations (4 thorough) through the easy and the full interface, keys and values given as pointers, strings or blocks, overwriting or not, chained or open addressing, none or any one allocation failing"),
    Q("policy", "hmap3.c", HM, defs=["NOPS=3", "FAILS=13", "PCY=U_HMAP_PCY_FIFO"], tdefs=["NOPS=4", "FAILS=18", "PCY=U_HMAP_PCY_FIFO"],
      bounds="the same on maps of at most two pairs that discard the oldest"),
    Q("grow", "hmap3.c", HM, defs=["NOPS=10", "PRE=9", "FAILS=36"], tdefs=["NOPS=11", "PRE=9", "FAILS=40"],
      bounds="the same on maps loaded up to the point where they grow, 1 operation (2 thorough)"),
    Q("pairs", "hmap4.c", HM, defs=["FAILS=9"], tdefs=["FAILS=12", "CLEAR"], bounds="the full interface with a user's release function or no ownership, unlimited or limited maps, 3 puts of any keys, a deletion, a put (then perhaps a clearing and a put, thorough), none or any one allocation failing"),
    Q("move", "hmap4.c", HM, defs=["H_MOVE", "FAILS=14"], bounds="the same, the pairs of one map copied to another one, keys in common or not"),
]}
LX = ["lexer.c", "memory.c", "misc.c"]
SPEC["X01"] = {"queries": [
    Q("seq", "lexer.c", LX, defs=["LEN=4", "NOPS=4"], tdefs=["LEN=6", "NOPS=5"],
      bounds="every sequence of 4 operations (5 thorough) on every text of up to 4 (6) arbitrary characters, any allocation failing"),
    Q("long", "lexer.c", LX, defs=["H_LONG"], bounds="matches of every length around the token limit, error texts beyond their limit"),
]}
UR = ["uri.c", "lexer.c", "memory.c", "misc.c"]
SPEC["Y01"] = {"queries": [
    Q("any", "uri.c", UR, defs=["H_ANY", "N=5"], tdefs=["H_ANY", "N=6"], bounds="every text of up to 5 (6 thorough) arbitrary bytes"),
    Q("in", "uri.c", UR, defs=["H_ANY", "CTX", "N=3"], tdefs=["H_ANY", "CTX", "N=4"],
      bounds="every text made of up to 3 (4 thorough) arbitrary bytes inside each of eight contexts (after the scheme, authority, host, address literal, path, IPv4 address, absolute path, fragment)"),
    Q("long", "uri.c", UR, defs=["H_LONG"], bounds="every component, of lengths around the token limit"),
    Q("oom", "uri.c", UR, defs=["H_ANY", "CTX", "N=2", "FAILS=5"], bounds="up to 2 arbitrary bytes in context, any one allocation failing"),
]}
SPEC["Y02"] = {"queries": [
    Q("back", "uri.c", UR, defs=["H_BACK", "CTX", "N=3"], tdefs=["H_BACK", "CTX", "N=4"],
      bounds="every URI made of up to 3 (4 thorough) arbitrary bytes in context"),
    Q("set", "uri.c", UR, defs=["N=2"], tdefs=["N=3"],
      bounds="any one component of up to 2 (3 thorough) arbitrary legal characters, present or absent, authority given whole or in parts"),
]}
MI = ["misc.c", "memory.c"]
SPEC["M01"] = {"queries": [
    Q("any", "misc.c", MI, defs=["H_NUM", "N=4"], tdefs=["H_NUM", "N=6"], bounds="every text of up to 4 (6 thorough) arbitrary bytes, any earlier error indicator, long, int and uintmax_t"),
    Q("edge", "misc.c", MI, defs=["H_NUM", "EDGE", "N=2"], tdefs=["H_NUM", "EDGE", "N=3"], bounds="digits up to one before each type's limits, then up to 2 (3 thorough) arbitrary bytes"),
    Q("real", "misc.c", MI, defs=["H_REAL"], rename=["strtod"], bounds="any outcome of strtod() (its own conversion is the C library's), any earlier error indicator"),
]}
SPEC["M02"] = {"queries": [
    Q("any", "misc.c", MI, defs=["H_TOK", "N=5"], tdefs=["H_TOK", "N=7"], bounds="every text of up to 5 (7 thorough) arbitrary bytes, every set of up to 2 delimiters, token arrays of 1-4 cells"),
    Q("many", "misc.c", MI, defs=["H_TOK", "MANY"], bounds="7 to 25 tokens, around each growth of the token vector"),
    Q("oom", "misc.c", MI, defs=["H_TOK", "MANY", "FAILS=4"], bounds="the same with any one allocation failing"),
]}
SPEC["M03"] = {"queries": [
    Q("any", "misc.c", MI, defs=["H_STR", "N=6"], tdefs=["H_STR", "N=8"], bounds="every text of up to 6 (8 thorough) arbitrary bytes, every buffer size around the result's, any separator, any 64-bit length"),
]}
SPEC["M04"] = {"queries": [
    Q("seq", "misc.c", MI, defs=["N=5", "CALLS=7"], tdefs=["N=6", "CALLS=9"], rename=["read", "write"],
      bounds="blocks of up to 5 (6 thorough) arbitrary bytes, every sequence of up to 7 (9) full, partial, interrupted, failing and end-of-file outcomes"),
    Q("sleep", "misc.c", MI, defs=["H_SLEEP", "NAPS=3"], tdefs=["H_SLEEP", "NAPS=5"], rename=["sleep"], bounds="every 32-bit number of seconds, up to 3 (5 thorough) interruptions, the first at any time, the others at once, after a second or a second before the end"),
]}
LG = "vsyslog syslog vfprintf fprintf getpid strerror_r".split()
SPEC["G01"] = {"queries": [
    Q("any", "log.c", ["log.c"], defs=["VP_REAL_LOG"], rename=LG, bounds="messages of up to 2 arbitrary characters, every severity and an unknown one, with and without context and error text, hook and system log, any error indicator"),
    Q("edge", "log.c", ["log.c"], defs=["VP_REAL_LOG", "EDGE"], rename=LG, bounds="the same, messages of every length from 70 under to 3 over the limit, starting with any two characters"),
    Q("console", "log.c", ["log.c"], defs=["VP_REAL_LOG", "H_CONSOLE"], rename=LG, bounds="console messages of up to 2 arbitrary characters, output failures included"),
]}
SPEC["Z01"] = {"queries": [
    Q("own", "mem.c", MI, defs=["H_OWN"], bounds="every 64-bit size, every function of the interface, an allocator of the program's own that serves or refuses"),
    Q("system", "mem.c", MI, defs=[], bounds="blocks of up to 40 elements, arbitrary contents, some impossible counts"),
]}
CF = ["config.c", "config_fs.c", "str.c", "misc.c", "memory.c"]
CA = 'ABC="ab {}#\\\\\\n.\\r"'
SPEC["C01"] = {"queries": [
    Q("text", "config.c", CF, defs=["H_TEXT", "N=7", "KL=16", "LL=24", 'PRE="a\\n{\\n"', CA], tdefs=["H_TEXT", "N=9", "KL=16", "LL=24", 'PRE="a\\n{\\n"', CA], bounds="every text of up to 7 (9 thorough) characters out of a b blank braces # backslash newline dot and carriage return, at the top level or inside an open section"),
    Q("over", "config.c", CF, defs=["H_TEXT", "OVER", "N=6", "KL=16", "LL=24", 'PRE="b\\n{\\n"', 'ABC="ab {}\\n."'], tdefs=["H_TEXT", "OVER", "N=8", "KL=16", "LL=24", 'PRE="b\\n{\\n"', 'ABC="ab {}\\n."'], bounds="every text of up to 6 (8 thorough) characters out of a b blank braces newline dot read over an earlier configuration, adding or overwriting"),
    Q("any", "config.c", CF, defs=["H_ANY", "N=4", "FAILS=8"], tdefs=["H_ANY", "N=5", "FAILS=12"], bounds="every text of up to 4 (5 thorough) arbitrary bytes in three contexts, none or any one allocation failing"),
    Q("lines", "config.c", CF, defs=["H_LINES", "KL=2060", "LL=2060", "LENS=1021,1022,1023,1024,1025,2045,2046,2047,2048,2049"], bounds="values, keys, blanks and comments in lines of lengths around 1023 and 2047, terminated or not, from memory and through a callback"),
    Q("oom", "config.c", CF, defs=["H_OOM", "FAILS=30", "LL=24"], bounds="five texts with dotted keys, sections and references, any one allocation failing"),
]}
SPEC["C02"] = {"queries": [
    Q("edit", "config.c", CF, defs=["H_EDIT", "NOPS=3", 'KEYS="a","b","a.b","b.a.b"'], tdefs=["H_EDIT", "NOPS=4", 'KEYS="a","b","a.b","b.a.b"'], bounds="every sequence of 3 (4 thorough) additions, settings, removals and value changes (to the item's own value, or failing, too) of any item under four plain and dotted keys, all lookups at the end"),
    Q("save", "config.c", CF, defs=["H_SAVE", "N=3", "CAP=12", "FAILS=10"], tdefs=["H_SAVE", "N=4", "CAP=20", "FAILS=20"], bounds="every key or value of up to 3 (4 thorough) printable characters but $ in four tree shapes, exact and too small buffers, any one allocation failing"),
    Q("both", "config.c", CF, defs=["H_BOTH"], bounds="the smallest tree with an item that has a value and subkeys"),
    Q("types", "config.c", CF, defs=["H_TYPES"], bounds="every value of up to 3 arbitrary characters and the longer words as truth value, every number of up to 3 characters"),
    Q("walk", "config.c", CF, defs=["H_WALK", "N=3"], tdefs=["H_WALK", "N=4"], bounds="every tree of up to 3 (4 thorough) children with arbitrary one-character names and up to two levels below"),
]}
SPEC["C03"] = {"queries": [
    Q("var", "config.c", CF, defs=["H_VAR", "N=7"], tdefs=["H_VAR", "N=9"], bounds="every value of up to 7 (9 thorough) characters out of a b . s $ and braces given to the root, a child, a child of a section or of a section in a section, with an arbitrary character in the value referred to"),
    Q("inc", "config.c", CF, defs=["H_INC", "LNS=13", "LL=24", "AL=1"], tdefs=["H_INC", "LNS=13", "LL=24", "AL=2"], bounds="every set of three files of up to 2, 1 (2 thorough) and 1 lines out of 13 forms (assignments, includes, optional includes, missing files, cycles, sections, stray braces), any one open or close failing"),
    Q("deep", "config.c", CF, defs=["H_DEEP"], bounds="sections nested 1 to 30000 times, closed or not"),
]}
SPEC["F01"] = {"queries": [
    Q("copy", "fs.c", ["fs.c", "misc.c", "memory.c", "str.c"], os=True, defs=["H_COPY", "N=4", "NFAULT=12", "TWO=0"], tdefs=["H_COPY", "N=8", "NFAULT=12", "TWO=1"], bounds="every file of up to 4 (8 thorough) bytes copied, moved or removed within and across devices, onto itself or over another file, any one (two thorough) system calls failing"),
    Q("mem", "fs.c", ["fs.c", "misc.c", "memory.c", "str.c"], os=True, rename=["getpid"], defs=["H_MEM", "N=4", "NFAULT=8"], tdefs=["H_MEM", "N=10", "NFAULT=8"], bounds="every block of up to 4 (10 thorough) bytes dumped or loaded under every size limit, any one system call or the allocation failing"),
    Q("big", "fs.c", ["fs.c", "misc.c", "memory.c", "str.c"], os=True, defs=["H_BIG", "OS_CAP=8200", "NFAULT=12"], bounds="files of 1 to 8193 bytes around the chunk size, any one system call failing"),
    Q("config", "config.c", CF, os=True, defs=["H_FILE", "LL=24", "NFAULT=16"], bounds="six configuration files read by name or descriptor, or printed and read back, any one system call failing"),
    Q("buf", "buf.c", BU, os=True, defs=["H_OS", "N=4", "NFAULT=14"], tdefs=["H_OS", "N=8", "NFAULT=14"], bounds="every buffer of up to 4 (8 thorough) bytes saved and loaded back into an empty or used buffer, any one system call failing"),
]}
SPEC["E01"] = {"queries": [
    Q("text", "env.c", ["env.c", "misc.c", "memory.c", "str.c"], os=True, rename=["setenv"], defs=["N=7", "NFAULT=6", "OS_CAP=64"], tdefs=["N=9", "NFAULT=8", "OS_CAP=64"], bounds="every output of up to 7 (9 thorough) characters out of P A = newline b #, four prefixes, any one system call, allocation or setenv failing"),
    Q("long", "env.c", ["env.c", "misc.c", "memory.c", "str.c"], os=True, rename=["setenv"], defs=["LONG", "OS_CAP=2100", "NFAULT=6"], bounds="lines of lengths around 1023 and 2047, terminated or not, any one system call, allocation or setenv failing"),
    Q("name", "env.c", ["env.c", "misc.c", "memory.c", "str.c"], os=True, rename=["setenv"], defs=["H_FILE", "N=4", "OS_CAP=64", "OS_NAME=64"], tdefs=["H_FILE", "N=5", "OS_CAP=64", "OS_NAME=64"], bounds="every file name of up to 4 (5 thorough) characters out of a blank / quotes $ \\ ; newline, the first also - . # ~; the command read by the quoting rules of the shell, ending well or not"),
    Q("path", "env.c", ["env.c", "misc.c", "memory.c", "str.c"], os=True, rename=["setenv"], defs=["H_FILE", "LONG", "OS_CAP=64", "OS_NAME=1200", "OS_CMD=8192"], bounds="file names of lengths from 500 to 1090, around every limit"),
]}
PW = ["pwd.c", "hmap.c", "memory.c", "misc.c", "str.c"]
SPEC["W01"] = {"queries": [
    Q("lines", "pwd.c", PW, defs=["H_LINES", "N=5", "RETR=vp_bool()"], tdefs=["H_LINES", "N=6", "RETR=vp_bool()"], bounds="every text of up to 5 (6 thorough) characters out of a b : # newline, every user and password of up to 2"),
    Q("bytes", "pwd.c", PW, defs=["H_BYTES", "RETR=vp_bool()"], bounds="a record of up to 2 + 2 arbitrary bytes among others, users and passwords of up to 3 arbitrary bytes"),
    Q("hash", "pwd.c", PW, defs=["H_BYTES", "HASH=2", "RETR=vp_bool()"], bounds="the same, passwords hashed to 2 characters, buffer filled"),
    Q("hashz", "pwd.c", PW, defs=["H_BYTES", "HASH=2", "HASHZ"], bounds="the same, hashes terminated"),
    Q("long", "pwd.c", PW, defs=["H_LONG", "TMAX=560", "RETR=vp_bool()"], bounds="lines of lengths around 255 and 510, continued by what looks like a record or a comment, cached or not"),
    Q("mem", "pwd.c", PW, defs=["H_MEM", "NREC=2", "NFAIL=0", "NWHO=3"], tdefs=["H_MEM", "NREC=3", "NFAIL=0", "NWHO=4"], bounds="every sequence of 2 (3 thorough) well-formed and malformed records with arbitrary password bytes, then a changed database, cached or not, watched or not"),
    Q("reload", "pwd.c", PW, defs=["H_MEM", "KMIN=1", "NREC=1", "NFAIL=14", "NWHO=2"], tdefs=["H_MEM", "KMIN=1", "NREC=2", "NFAIL=20", "NWHO=2"], bounds="one record (2 thorough), then a changed database, cached or not, one opening or allocation failing at every point"),
    Q("file", "pwd.c", PW, os=True, defs=["H_FILE", "OS_CAP=64", "NFAULT=9"], bounds="two records in a file that changes, arbitrary password bytes, any one system call failing"),
    Q("oom", "pwd.c", PW, defs=["H_OOM", "NFAIL=16", "RETR=vp_bool()"], bounds="two records, any one allocation failing from the set-up on"),
    Q("oomhash", "pwd.c", PW, defs=["H_OOM", "HASH=2", "NFAIL=16"], bounds="the same, passwords hashed to 2 characters"),
]}
CN = "connect select poll gettimeofday clock_gettime time fcntl getsockopt close".split()
NE = ["net.c", "uri.c", "lexer.c", "memory.c", "misc.c", "str.c"]
SPEC["N01"] = {"queries": [
    Q("fine", "connect.c", NE, rename=CN, defs=["INTR=1", "NFAULT=1", "SMASK=0x7", "FINE"], bounds="the same, times to the microsecond up to 8 seconds, one interruption"),
    Q("connect", "connect.c", NE, rename=CN, defs=["INTR=2", "NFAULT=8", "SMASK=0xf"], tdefs=["INTR=3", "NFAULT=12", "SMASK=0xff", "FINE"], bounds="every outcome of each system call, every error number, every clock and limit of whole and thirds of seconds up to 16 seconds (255 to the microsecond, thorough), up to 2 (3 thorough) interruptions at any times, descriptors within and beyond the size of a set, arbitrary descriptor flags, any one auxiliary call failing"),
]}
SK = "socket connect bind listen accept setsockopt fcntl gettimeofday close getaddrinfo freeaddrinfo gai_strerror inet_ntop".split()
def sk(name, *defs, **kw):
    return Q(name, "sock.c", NE, rename=SK, defs=list(defs), **kw)


SPEC["N02"] = {"queries": [
    sk("scheme", "H_SCHEME", bounds="every scheme of up to 5 letters and digits in any case, passive and active"),
    sk("desc", "H_DESC", bounds="every host and port of up to 2 characters out of letters, digits, wildcards and punctuation, present or not, resolved or not"),
    sk("port", "H_PORT", "DIG=2", bounds="decimal port numbers around the limits of 16, 32 and 64 bits, and every one of up to 2 digits, zeros in front included"),
    sk("ipv6", "H_IPV6", bounds="some address literals with every port of up to 2 characters"),
    sk("unix", "H_UNIX", bounds="paths of lengths up to 3 and around 107 with arbitrary characters, any one system call or allocation failing"),
    sk("make", "H_MAKE", "NADDR=3", "NFAULT=9", bounds="every kind of socket and set of options, up to 3 addresses, any one system call failing, one-shot and reused descriptions, timed or not"),
    sk("oom", "H_OOM", bounds="any one allocation failing"),
    sk("modes", "H_MODE", bounds="any flags of the descriptor, any one system call failing"),
    Q("resolver", "resolv.c", NE, rename=SK + "VP_NO_GETADDRINFO=1 gethostbyname gethostbyname2 __h_errno_location getservbyname inet_addr inet_aton inet_pton".split(), bounds="systems without getaddrinfo: IPv4 and IPv6, names, numbers and wildcards, port numbers around the limits of 16, 32 and 64 bits, services, any answer of the system, any one allocation or system call failing but for numeric ports"),
    sk("accept", "H_ACCEPT", bounds="up to 4 interruptions, success or failure"),
    sk("ntop", "H_NTOP", bounds="IPv4 addresses of two arbitrary and two extreme bytes with every port, paths of lengths up to 2 and around 107, into exact, ample and short buffers"),
]}

TR = "fork wait wait3 wait4 waitpid kill exit _exit sigaction sigemptyset time localtime strftime uname printf fopen fclose fprintf vfprintf fputs fputc putc fwrite fflush ferror getopt optarg optind".split()


def ts(name, *defs, **kw):
    d = {"NC": "3", "NS": "1", "SUITE(i)": "0", "EDGE(i,j)": "i!=j", "SEDGE(i,j)": "0", "FORKF": "-1", "INTR": "0", "LOSE": "0", "FOREIGN": "0"}
    def mk(xs):
        m = dict(d)
        for x in xs:
            k, _, v = x.partition("=")
            m[k] = v
        return ["%s=%s" % (k, v) if v else k for k, v in m.items()]
    t = kw.pop("thorough", None)
    return Q(name, "test.c", ["test.c", "misc.c", "memory.c", "str.c"], rename=TR, defs=mk(defs), tdefs=mk(list(defs) + list(t)) if t else None, **kw)


SPEC["K01"] = {"queries": [
    ts("graph", "DUP=3", "UNKNOWN", "EDGE(i,j)=1", thorough=["NC=4", "DUP=0", "EDGE(i,j)=i!=j", "INORDER"], bounds="every set of dependencies of 3 cases (4 thorough), on themselves and on unknown ones included, stated once or twice by either means, in any order of termination"),
    ts("outcome", "KINDS=3", "XML", thorough=["NC=4", "EDGE(i,j)=i>j", "XML"], bounds="every set of dependencies of 3 cases (4 in order thorough), every outcome and order of termination, both reports"),
    ts("serial", "SANDBOX=0", "KINDS=3", "XML", bounds="the same, serialized"),
    ts("limit", "NC=4", "PAR=3", "KINDS=2", "EDGE(i,j)=i==3||j==0", bounds="4 cases, limits of 0 to 3 parallel cases"),
    ts("suites", "NC=3", "NS=3", "SUITE(i)=i", "SEDGE(i,j)=1", "KINDS=2", "DUP=3", bounds="every set of dependencies of 3 suites"),
    ts("nested", "NC=4", "NS=2", "SUITE(i)=i/2", "SEDGE(i,j)=i!=j", "KINDS=2", "INTR=0", bounds="every set of dependencies of 2 suites of 2 cases, both outcomes"),
    ts("nested-s", "NC=4", "NS=2", "SUITE(i)=i&1", "SEDGE(i,j)=i!=j", "KINDS=2", "SANDBOX=0", "INTR=1", bounds="the same, serialized, interrupted or not"),
    ts("oom", "NC=2", "NS=2", "SUITE(i)=i", "SEDGE(i,j)=i>j", "EDGE(i,j)=i==j", "OOM=10", "DUP=3", bounds="any one allocation failing"),
    ts("oom2", "NC=2", "REGISTER", "OOM=6", bounds="the same, with cases registered at once"),
    ts("faults", "FORKF=2", "INTR=1", "LOSE=1", "FOREIGN=1", "KINDS=1", thorough=["INTR=2", "KINDS=2"], bounds="every set of dependencies of 3 cases, any fork failing, an interruption, children lost or not the runner's"),
]}

SPEC["K02"] = {"queries": [
    Q("names", "report.c", ["test.c", "misc.c", "memory.c", "str.c"], rename=TR, defs=["NLEN=2"], tdefs=["NLEN=3"], bounds="every name of up to 2 (3 thorough) printable characters of the run, a suite or a case, both reports, three outcomes of each of three cases of two suites, a case or a suite depending on another or not"),
    Q("faults", "report.c", ["test.c", "misc.c", "memory.c", "str.c"], rename=TR, defs=["H_FAULT", "NW=60"], bounds="both reports and reporters of the program's own, to a file or the standard output, opening, any write, flushing or closing failing, any reporter failing"),
    Q("file", "report.c", ["test.c", "misc.c", "memory.c", "str.c"], rename=TR, defs=["H_FILE"], bounds="file names of lengths up to 3 and around the longest, by option or call"),
]}


def miss(name, defs, fs, calls=(), **kw):
    return Q(name, "missing.c", ["missing/%s.c" % f for f in fs], defs=defs + ["VP_NO_" + f.upper() for f in fs], rename=list(fs) + list(calls) + ["VP_NO_%s=1" % f.upper() for f in fs], **kw)


PAT = 'PAT="a*?[]!-.\\\\/\\xe9"'
SPEC["Q01"] = {"queries": [
    miss("str", ["H_STR", "N=3"], ["strlcpy", "strlcat", "strsep", "strtok_r"], bounds="every text of up to 3 (4 thorough) arbitrary characters, delimiters of up to 2, every buffer size around the result's", tdefs=["H_STR", "N=4", "VP_NO_STRLCPY", "VP_NO_STRLCAT", "VP_NO_STRSEP", "VP_NO_STRTOK_R"]),
    miss("match", ["H_FNM", "N=4", "M=3", PAT, 'TXT="ab./\\xe9"'], ["fnmatch"], tdefs=["H_FNM", "N=5", "M=3", PAT, 'TXT="ab./\\xe9"', "VP_NO_FNMATCH"], bounds="fnmatch: every pattern of up to 4 (5 thorough) characters out of a * ? [ ] ! - . \\ / and one beyond ASCII, and every text of up to 3 out of a b . / and that one, eight sets of flags, unspecified patterns left out"),
    miss("range", ["H_FNM", "BRACKET", "N=4", "M=1", 'PAT="abc!-.\\\\/]"', 'TXT="abc-.\\\\/"'], ["fnmatch"], tdefs=["H_FNM", "BRACKET", "N=5", "M=2", 'PAT="abc!-.\\\\/]"', 'TXT="abc-.\\\\/"', "VP_NO_FNMATCH"], bounds="fnmatch: every bracket expression of up to 4 (5 thorough) characters out of a b c ! - . \\ / ] against every text of up to 1 (2 thorough), the same flags"),
    miss("time", ["H_TIME"], ["timegm"], ["getenv", "putenv", "setenv", "unsetenv", "tzset", "mktime", "gmtime", "gmtime_r"], bounds="timegm: 24 years from 1800 to 9999, every month and some out of range, five days of each, every hour, minute and second, some days and times out of range"),
    miss("temp", ["H_TEMP", "TRIES=4"], ["mkstemps"], ["rand", "srand", "time", "stat", "lstat", "open"], bounds="mkstemps: up to 2 X, four prefixes and suffixes, up to 3 names taken, a directory, a file or nothing in its place"),
    miss("log", ["H_VSYSLOG"], ["vsyslog"], ["syslog"], bounds="vsyslog: messages of 0 to 2 and around 1000 characters"),
]}

for _p, _d, _s, _r, _b in (
    ("A01", "L_ARRAY", ["array.c"], [], "arrays of ints grown to up to 5000 elements, one value arbitrary"),
    ("L01", "L_LIST", ["list.c"], [], "lists of 20 to 130 elements, one arbitrary, inserted at seven positions, a third of them deleted"),
    ("P01", "L_PQ", ["pqueue.c"], [], "queues of 14 to 17 and 37 items in four orders, one key arbitrary, a third evicted and replaced"),
    ("T01", "L_BST", ["bst.c"], ["rand", "srand", "getpid"], "trees of 31 to 64 keys in four orders of insertion, one value arbitrary, some deleted, then balanced"),
    ("R01", "L_RB", ["rb.c", "misc.c"], [], "buffers of 16 to 257 bytes, 40 writes and reads of regular sizes, some bytes arbitrary"),
    ("H01", "L_HMAP", HM, [], "maps of 300 string keys, started at four sizes, a third deleted, some replaced, one value arbitrary"),
    ("H02", "L_LIMIT", HM, [], "maps of at most 3 to 40 pairs and up to 140 put, some deleted or used meanwhile, one value arbitrary, by FIFO, LRU and LFU"),
    ("U01", "L_BUF", BU, [], "33 and 65 appends and formatted appends of up to 1000 bytes, one byte arbitrary"),
    ("S01", "L_BUF", BU, [], "33 and 65 appends and formatted appends of up to 1000 bytes, one byte arbitrary"),
):
    SPEC[_p]["queries"].append(Q("large", "large.c", _s, rename=_r, defs=[_d, "STR=%d" % (_p == "S01")], steps=100000000, bounds=_b))
