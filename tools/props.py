"""Which harnesses decide which property, and within which bounds."""

COMMON = [
    'code generated by rustc 1.99.1 at opt-level 1 with overflow checks and debug assertions on (x86-64); the deciding object is its LLVM IR',
    'the engine\'s semantics of LLVM IR (validated on every run by native replay of sampled path models)',
    'allocation succeeds; a single block above 1 MiB is reported',
    'hash map keys (RandomState) and the clock are fixed, increasing values',
]


def h(name, bound, **k):
    return dict(h=name, b=bound, **k)


PROPS = {}

PROPS['C01'] = dict(
    area='bencode',
    quick=[
        h('h_c01_tree4', 'every tree of up to 4 nodes and 2 container levels; one-digit integers, strings of up to 2 arbitrary bytes, keys of up to 1 arbitrary UTF-8 byte'),
        h('h_c01_int16', 'every integer of 16 bits'),
        h('h_c01_int_all_edges', 'every integer within 8 of a power of ten or within 16 of i64::MIN and i64::MAX, and their negations'),
        h('h_c01_bytes', 'every byte string of up to 12 bytes'),
        h('h_c01_key', 'every pair of distinct UTF-8 keys of up to 4 and 2 bytes'),
        h('h_c01_long', 'strings and keys of 18 lengths from 15 to 65536, the first, a middle or the last byte arbitrary'),
        h('h_c01_wide', 'lists and dictionaries of 5 to 90 entries (8 sizes), one of them and its key arbitrary'),
        h('h_c01_huge', 'lists and dictionaries of 260 and 520 entries, one of them and its key arbitrary', **{'max-steps': 60000000}),
        h('h_c01_deep', '5 to 260 levels (6 depths) of lists and dictionaries in any pattern of three'),
        h('h_c01_int_pow2', 'integers within 2 of every power of two from 16 to 2^62, and their negations'),
    ],
    thorough=[h('h_c01_tree5', 'trees of up to 5 nodes and 3 levels, strings of up to 1 byte')],
    outside='other trees of more than 4 nodes, strings of other lengths, other integers above 16 bits',
)
PROPS['C02'] = dict(
    area='bencode',
    quick=[
        h('h_c02_free6', 'every document of up to 6 bytes, with no limits or arbitrary 64-bit depth and item limits'),
        h('h_c02_number', 'numbers of up to 4 arbitrary characters in 6 positions'),
        h('h_c02_digits', 'integers and lengths of 16 to 23 characters: one arbitrary, a run of 0, 1 or 9, two arbitrary'),
        h('h_c02_window', 'five documents of up to 105 bytes with one arbitrary byte, or none, anywhere in place of up to 2'),
        h('h_c02_window2', 'five documents of up to 105 bytes with up to two arbitrary bytes anywhere in place of up to 2'),
    ],
    thorough=[h('h_c02_free8', 'every document of up to 8 bytes with arbitrary limits')],
    outside='longer documents of other shapes; the stack used for deep nesting is C35',
)
PROPS['C03'] = dict(
    area='bencode',
    quick=[
        h('h_c03_free6', 'every document of up to 6 bytes'),
        h('h_c03_int', 'i, up to 6 arbitrary characters, e'),
        h('h_c03_int_edge', 'integers at the ends of the 64-bit range with an arbitrary sign character and 5 arbitrary final characters'),
        h('h_c03_len', 'strings of up to 14 bytes with every length field of up to 3 characters'),
        h('h_c03_dict', 'dictionaries of up to 5 items with arbitrary one- or two-byte keys, integers of one arbitrary character, and odd item counts'),
        h('h_c03_window', 'five documents of up to 105 bytes with one arbitrary byte, or none, anywhere in place of up to 2'),
        h('h_c03_window2', 'five documents of up to 105 bytes with up to two arbitrary bytes anywhere in place of up to 2'),
    ],
    thorough=[h('h_c03_free8', 'every document of up to 8 bytes'), h('h_c03_dict_long', 'dictionaries of up to 6 items')],
    outside='longer documents of other shapes',
    assume=['integers follow the decoder\'s documented tolerance: an optional sign and leading zeros; for a repeated key the value of one of its entries'],
)
PROPS['C04'] = dict(
    area='bencode',
    quick=[
        h('h_c04_free6', 'every document of up to 6 bytes'),
        h('h_c04_dict', 'dictionaries of up to 3 pairs with arbitrary one-byte keys in any order, with or without trailing bytes'),
        h('h_c04_tree4', 'the canonical encoding of every tree of up to 4 nodes, 2 levels, strings and keys of up to 2 bytes'),
        h('h_c04_window', 'five documents of up to 105 bytes with one arbitrary byte, or none, anywhere in place of up to 2'),
        h('h_c04_window2', 'five documents of up to 105 bytes with up to two arbitrary bytes anywhere in place of up to 2'),
    ],
    thorough=[h('h_c04_free8', 'every document of up to 8 bytes')],
    outside='longer documents of other shapes',
)
PROPS['C05'] = dict(
    area='bencode',
    quick=[
        h('h_c05_free6', 'every document of up to 6 bytes with no limits or arbitrary 64-bit limits'),
        h('h_c05_deep', 'lists of up to 7 tokens (nested lists and integers, balanced or not), arbitrary limits'),
        h('h_c05_dict', 'dictionaries of up to 2 pairs with nested containers of up to 2 levels, arbitrary limits'),
        h('h_c05_wide', 'lists and dictionaries of 5 to 90 entries (8 sizes), one of them and its key arbitrary; up to 20 levels; arbitrary limits'),
        h('h_c05_huge', 'lists and dictionaries of 260 and 520 entries, one of them and its key arbitrary, and 130 and 260 levels, with a limit that fits exactly or is off by up to 2', **{'max-steps': 60000000}),
        h('h_c05_vast', '65600 items in a list, and 65601 lists that are never closed; limits around 65535 and around the number, both forms', **{'max-steps': 1000000000, 'max-alloc': 16777216}),
    ],
    thorough=[h('h_c05_deep9', 'lists of up to 9 tokens'), h('h_c05_free8', 'every document of up to 8 bytes')],
    outside='longer documents of other shapes',
    assume=['items are counted as they are written: containers, leaves and dictionary keys'],
)
PROPS['C06'] = dict(
    area='bencode',
    quick=[
        h('h_c06_free6', 'every document of up to 6 bytes with no limits or arbitrary 64-bit limits'),
        h('h_c06_tree4', 'every tree of up to 4 nodes, 2 levels, strings and keys of up to 2 bytes'),
        h('h_c06_dup', 'dictionaries of up to 3 pairs whose arbitrary one-byte keys may repeat'),
        h('h_c06_window', 'five documents of up to 105 bytes with one arbitrary byte, or none, anywhere in place of up to 2'),
        h('h_c06_window2', 'five documents of up to 105 bytes with up to two arbitrary bytes anywhere in place of up to 2'),
        h('h_c06_wide', 'lists and dictionaries of 5 to 90 entries (8 sizes), one of them and its key arbitrary; up to 33 levels; strings of up to 65536 bytes; arbitrary limits'),
        h('h_c06_huge', 'lists and dictionaries of 260 entries and 130 and 260 levels, with no limit or one that fits exactly or is off by up to 2', **{'max-steps': 60000000}),
    ],
    thorough=[h('h_c06_free8', 'every document of up to 8 bytes with arbitrary limits')],
    outside='longer documents of other shapes',
)
PROPS['C07'] = dict(
    area='bencode',
    quick=[
        h('h_c07_owned', 'owned values: every tree of up to 3 nodes, an arbitrary index, a key of up to 1 arbitrary UTF-8 byte'),
        h('h_c07_ref', 'borrowed values: likewise'),
        h('h_c07_owned_wide', 'owned lists and dictionaries of 5 to 90 entries (8 sizes), one of them and its key arbitrary; an arbitrary index and key'),
        h('h_c07_ref_wide', 'the same, borrowed'),
        h('h_c07_owned_huge', 'owned lists and dictionaries of 260 and 520 entries, likewise', **{'max-steps': 60000000}),
        h('h_c07_ref_huge', 'the same, borrowed', **{'max-steps': 60000000}),
    ],
    thorough=[h('h_c07_owned4', 'owned trees of up to 4 nodes'), h('h_c07_ref4', 'borrowed trees of up to 4 nodes')],
    outside='other values of more than 3 nodes, longer keys',
)


PROPS['C08'] = dict(
    area='common',
    quick=[
        h('h_c08_shl', 'every hash and every 64-bit shift amount'),
        h('h_c08_shr', 'every hash and every 64-bit shift amount'),
        h('h_c08_twice', 'every hash, a left shift by 0 to 31 followed by a right shift by 0 to 19'),
    ],
    thorough=[],
    outside='longer sequences of shifts (each step is covered for every hash)',
)
PROPS['C09'] = dict(
    area='common',
    quick=[
        h('h_c09_ops', 'every pair of hashes, every operand form'),
        h('h_c09_order', 'every pair of hashes'),
        h('h_c09_zeros', 'every hash'),
        h('h_c09_build', 'every hash; slices of 0 to 24 arbitrary bytes; every index written with every byte'),
        h('h_c09_build_long', 'slices of 11 lengths from 25 to 65556 bytes'),
    ],
    thorough=[],
    outside='slices longer than 24 bytes',
)
PROPS['C10'] = dict(
    area='common',
    quick=[
        h('h_c10_bytes', 'every byte string of up to 3 bytes'),
        h('h_c10_text', 'every text of up to 6 bytes, output buffers of exactly the length needed and one more'),
        h('h_c10_hash', 'a 40-digit text of which any two digits of one byte are arbitrary'),
        h('h_c10_digit', 'every character'),
        h('h_c10_long', 'strings of 12 lengths from 7 to 1000 bytes, any of 5 bytes arbitrary; their texts, and the texts less one digit, with one arbitrary byte there'),
    ],
    thorough=[h('h_c10_bytes4', 'up to 4 bytes'), h('h_c10_text8', 'every text of up to 8 bytes')],
    outside='longer byte strings and texts (the loops treat each byte alike)',
    assume=['the output buffer is long enough for the text'],
)
PROPS['C11'] = dict(
    area='common',
    quick=[x for n in ('128', '256') for x in (
        h('h_c11_set' + n, 'every filter of %s bytes, every key, an arbitrary bit of the filter before and after; case by case on the parts of 256 bits they lie in' % n),
        h('h_c11_build' + n, 'every filter of %s bytes' % n),
        h('h_c11_many' + n, 'a fresh filter of %s bytes, up to 2 keys and one more that was not inserted; the bits of a key are arbitrary ones of the first, a middle and the last byte' % n),
        h('h_c11_size' + n, 'filters of %s bytes in 4 patterns with an arbitrary byte anywhere, against a filter with as many zero bits' % n),
        h('h_c11_mono' + n, 'the estimate for every number of zero bits'),
        h('h_c11_grow' + n, 'filters of %s bytes in 4 patterns, keys whose bits are arbitrary ones of the first, a middle and the last byte' % n),
    )],
    thorough=[h('h_c11_three128', 'up to 3 such keys'), h('h_c11_three256', 'up to 3 such keys')],
    outside='histories of more keys (one insertion is covered for every filter content, which is the induction step); the estimate on contents that differ from the patterns in more than one byte',
    assume=['floating point is evaluated concretely, one path per number of zero bits'],
)
PROPS['C12'] = dict(
    area='common',
    quick=[
        h('h_c12_clamp', 'every value and ordered bounds, in i64, usize, u8, i8, u16 and i32'),
        h('h_c12_random', 'every positive 64-bit limit, every outcome of the random source'),
        h('h_c12_fill', 'buffers of 1 to 33 bytes: each last byte can take a chosen value, so it is overwritten', reach=True),
        h('h_c12_seed', 'each of the 32 bytes of a seed is taken from the random source', reach=True),
        h('h_c12_fill_long', 'buffers of 64 to 1000 bytes: bytes at 5 places can take chosen values', reach=True),
    ],
    thorough=[],
    outside='other buffers longer than 33 bytes; clamping of other types',
    assume=['the random source yields arbitrary bytes: rand is replaced by stubs/rand, whose thread_rng asks the engine for symbolic bytes and which keeps rand\'s own range and fill code'],
)

RAND = 'the random source yields arbitrary bytes: rand is replaced by stubs/rand, whose thread_rng asks the engine for symbolic bytes and which keeps rand\'s own range code'
STORE = 'torrent and item targets are five fixed ids (hash table keys are concrete)'
PROPS['C13'] = dict(
    area='dht',
    quick=[
        h('h_c13_write', 'every IPv4 and IPv6 address and port; writers with room for all, or for any smaller number of bytes; read back'),
        h('h_c13_read', 'every input of up to 20 bytes to the four readers'),
        h('h_c13_pieces', 'writers and readers that take or give at most 1 to 5 bytes at a time, are never interrupted or every second time, and stop quietly or fail after any number of bytes'),
    ],
    thorough=[],
    outside='writers and readers with another pattern of interruptions',
)
PROPS['C14'] = dict(
    area='dht',
    quick=[h('h_c14_all', 'up to 2 node ids, 2 nodes and 2 nodes6, each with an arbitrary IPv4 or IPv6 address, id and port'),
           h('h_c14_nodes', 'up to 3 nodes and 1 of nodes6'),
           h('h_c14_nodes6', 'up to 1 id, 1 node and 2 of nodes6'),
        h('h_c14_many', '4 to 257 nodes of each list and half as many ids (9 sizes), one of each arbitrary; then clear')],
    thorough=[],
    outside='other long lists',
    assume=['IPv6 endpoints have flow and scope id 0'],
)
PROPS['C15'] = dict(
    area='dht',
    quick=[
        h('h_c15_ids', 'node-id lists of up to 3 entries: integers, or arbitrary bytes of length 0, 20, 23, 24, 25, 36 or 40'),
        h('h_c15_list', 'both node lists with up to 2 entries of arbitrary bytes, lengths 0, 5, 6, 7, 18, 20, 24, 36, and an entry of another type first or last'),
        h('h_c15_wrong', 'documents that are no dictionary; keys absent or holding an integer, dictionary, empty list or arbitrary bytes (20 bytes: the old format)'),
        h('h_c15_many', 'lists of 5 to 130 entries of which every third and fourth are wrong'),
    ],
    thorough=[],
    outside='other long lists, other entry lengths',
)
PROPS['C16'] = dict(
    area='dht',
    quick=[
        h('h_c16_direct', 'every 64-bit value of all 13 numeric settings and every value of the 8 switches at once'),
        h('h_c16_bytes', 'through encoded bytes: one numeric setting any byte, the others fixed distinct values, all switches arbitrary'),
    ],
    thorough=[],
    outside='larger numbers through encoded bytes (their decimal form is C01)',
)
PROPS['C17'] = dict(
    area='dht',
    quick=[
        h('h_c17_all', 'all 21 settings present as arbitrary 64-bit integers, and an unknown key'),
        h('h_c17_one', 'any two of the settings or an unknown key, each an arbitrary integer or a string, list or dictionary; documents that are no dictionary'),
    ],
    thorough=[],
    outside='other combinations of wrongly typed settings; a negative number for a count (any value may result)',
)
PROPS['C18'] = dict(
    area='dht',
    quick=[
        h('h_c18_exp', 'every pair of ids'),
        h('h_c18_min', 'a target and up to 3 ids whose first, tenth and last bytes are arbitrary'),
        h('h_c18_many', '4, 8 and 17 ids of which one has any of 6 bytes arbitrary'),
    ],
    thorough=[],
    outside='other sets of more than 3 ids',
)
PROPS['C19'] = dict(
    area='dht',
    quick=[
        h('h_c19_some', 'up to 3 announces of arbitrary ports and last address bytes with arbitrary seed flags, both families, reply sizes 0 to 3 (0 to 15 for IPv6), seeds wanted or not, every random outcome'),
        h('h_c19_reply', 'the reply dictionary with and without a list of values, with another entry, with a wrong type, and no dictionary at all'),
        h('h_c19_kept', 'a reply that holds 1 to 3 values already; 1 to 3 peers with arbitrary ports, reply sizes 1 and 2, every random outcome'),
        h('h_c19_name', 'up to 3 announces under 4 names (empty, ASCII, non-ASCII), lookups and scrapes'),
        h('h_c19_long', 'names of 98 to 102 characters of 1, 2 or 4 bytes'),
        h('h_c19_any', 'two peers and one of the other family with arbitrary addresses and ports'),
        h('h_c19_many', '6 to 60 peers announced in no order, any seed pattern, reply sizes 0, 1 and around the number of eligible peers; the outcomes of the random source are the least, the greatest or a fixed sequence, for 6 peers with one of 5 arbitrary'),
        h('h_c19_large', '300 peers of either family, reply sizes 1, half and around the number of eligible peers and beyond; the outcomes of the random source are the least, the greatest or a fixed sequence', **{'max-steps': 200000000}),
    ],
    thorough=[h('h_c19_some4', 'up to 4 announces')],
    outside='other histories of more than 3 announces, and every combination of random outcomes for them',
    assume=[RAND, STORE],
)
PROPS['C20'] = dict(
    area='dht',
    quick=[
        h('h_c20_history', 'up to 3 announces for 3 torrents by 2 peers, seed or not; at most 0 to 2 torrents, 1 or 2 peers; then a lookup and an announce by any of them'),
        h('h_c20_peers', 'up to 3 announces for one torrent, both families, endpoints with an address byte 0 to 3 and 4 ports; at most 0, 1 or 2 peers; then a lookup by any such endpoint'),
        h('h_c20_many', '4 and 6 peers and one arbitrary announce, at most one peer fewer, as many, or one more'),
        h('h_c20_torrents', 'at most 1 to 20 torrents, announces for 2 more'),
        h('h_c20_large', '256, 300 and 500 peers of either family, at or one below the limit, then an announce by one of 4 of them or by a new one', **{'max-steps': 200000000}),
        h('h_c20_large_torrents', 'at most 256, 300 and 2000 torrents, announces for 2 more', **{'max-steps': 200000000}),
        h('h_c20_any', 'two peers with arbitrary addresses and ports, at most 1 or 2; then a lookup'),
    ],
    thorough=[h('h_c20_many12', '9 and 12 peers and one arbitrary announce'), h('h_c20_history4', 'up to 4 announces'), h('h_c20_peers4', 'up to 4 announces')],
    outside='other longer histories and larger capacities',
    assume=[STORE, 'the outcomes of the random source, which decide the order of a reply that holds every peer, are a fixed sequence but for at most one, except in h_c20_any and h_c20_torrents'],
)
PROPS['C21'] = dict(
    area='dht',
    quick=[
        h('h_c21_history', 'up to 5 puts of 3 targets, capacity 1 or 2, a node id with arbitrary first and last byte; the whole table is compared after every put'),
        h('h_c21_evict', 'a full table of 2 items (3 choices), 1 or 2 node ids with arbitrary first and last bytes, replaced once or not, and a third item'),
        h('h_c21_announcers', 'the same with 1, 4, 5, 9, 10 or 11 announcers of each item, some announcing twice'),
        h('h_c21_content', 'contents of up to 4 arbitrary bytes'),
        h('h_c21_many', 'tables of 3 and 4 items, one of them announced by 10 addresses, then two more'),
        h('h_c21_wide', 'tables of 9 to 20 items, one of 3 of them announced by 1, 26 or 90 addresses, a node id with an arbitrary first byte, then two more', **{'max-steps': 200000000}),
        h('h_c21_large', 'tables of 256, 300 and 700 items, then two more', **{'max-steps': 200000000}),
    ],
    thorough=[h('h_c21_history6', 'up to 6 puts')],
    outside='larger capacities and longer histories; announcer addresses beyond 11 fixed ones (their SHA-1 is computed concretely; a filter collision counts two announcers as one)',
    assume=[STORE, 'at least one node id is set, and contents are valid bencode, as callers guarantee'],
)
PROPS['C22'] = dict(
    area='dht',
    quick=[
        h('h_c22_seq', 'up to 4 puts of 2 targets, every 64-bit sequence number, contents of 1 or 2 arbitrary bytes, arbitrary signatures'),
        h('h_c22_get', 'lookups with every 64-bit sequence number of the item and of the caller, forced or not'),
        h('h_c22_history', 'up to 5 puts of 3 targets, capacity 1 or 2, a node id with arbitrary first and last byte'),
        h('h_c22_evict', 'as for C21'),
        h('h_c22_announcers', 'as for C21'),
        h('h_c22_many', 'as for C21'),
        h('h_c22_wide', 'as for C21', **{'max-steps': 200000000}),
        h('h_c22_large', 'as for C21', **{'max-steps': 200000000}),
    ],
    thorough=[h('h_c22_seq5', 'up to 5 puts'), h('h_c22_history6', 'up to 6 puts')],
    outside='larger capacities and longer histories',
    assume=[STORE, 'at least one node id is set, and contents are valid bencode, as callers guarantee'],
)
PROPS['C23'] = dict(
    area='dht',
    quick=[h('h_c23_scrape', 'up to 5 announces by 3 addresses of one family, any seed flags, and one of the other family'),
        h('h_c23_ports', 'up to 3 announces by 2 addresses on 2 ports'),
        h('h_c23_many', '6, 30 and 120 peers, any seed pattern')],
    thorough=[],
    outside='other addresses (their SHA-1 is computed concretely)',
    assume=[STORE],
)
PROPS['C24'] = dict(
    area='dht',
    quick=[h('h_c24_other', 'up to 2 operations on a target (announces of both families, puts of both kinds), then 1 or 2 on another one or a change of node ids; everything the first target shows is compared'),
           h('h_c24_evict', 'every history of 3 operations on 3 targets (announces and both kinds of puts) with tables of 1 or 2 items: only the table operated on changes, but for the one eviction')],
    thorough=[h('h_c24_evict4', 'every history of 4 operations')],
    outside='longer histories',
    assume=[STORE],
)
PROPS['C25'] = dict(
    area='dht',
    quick=[h('h_c25_bytes', 'every ascending sequence of up to 9 bytes and every byte; the same as signed 64-bit numbers'),
        h('h_c25_long', 'ascending slices of 15 to 200 numbers with runs of 1 to 4 equal ones; every number')],
    thorough=[h('h_c25_bytes14', 'up to 14 bytes')],
    outside='other longer slices, other element types',
)
PROPS['C26'] = dict(
    area='root',
    quick=[
        h('h_c26_bytes', 'every byte string of up to 6 bytes'),
        h('h_c26_bytes8', 'every byte string of up to 8 bytes'),
        h('h_c26_text7', 'every byte string of up to 7 bytes, as text'),
        h('h_c26_back', 'every byte string of up to 3 bytes, each byte escaped in either letter case, as + or written out'),
        h('h_c26_long2', 'three texts of 11 to 400 characters with two arbitrary bytes at any of ten places'),
    ],
    thorough=[h('h_c26_bytes10', 'up to 10 bytes'), h('h_c26_back4', 'up to 4 bytes')],
    outside='other strings of more than 8 bytes',
)
PROPS['C27'] = dict(
    area='root',
    quick=[
        h('h_c27_back', 'up to 11 bytes, two neighbouring ones arbitrary; upper, lower or mixed case or 1 for I; padded or not'),
        h('h_c27_back20', 'up to 20 bytes, three neighbouring ones arbitrary'),
        h('h_c27_text6', 'every text of up to 6 bytes'),
        h('h_c27_group', 'texts of 6 to 11 characters, the last 3 arbitrary'),
        h('h_c27_long', '21 to 513 bytes (9 lengths), one of them arbitrary at one of 6 places, in every style'),
        h('h_c27_long_text', 'the text of 20 to 200 bytes with an arbitrary character at one of 9 places, the padding included'),
    ],
    thorough=[h('h_c27_text8', 'every text of up to 8 bytes'), h('h_c27_group5', 'texts of 6 to 13 characters, the last 5 arbitrary')],
    outside='other longer texts (groups of 8 characters are decoded alike)',
    assume=['a group of 1, 3 or 6 digits, which no encoder writes, may give one byte more'],
)
PROPS['C28'] = dict(
    area='root',
    quick=[
        h('h_c28_split9', 'every byte string of up to 9 bytes, every separator'),
        h('h_c28_trim9', 'every byte string of up to 9 bytes'),
        h('h_c28_int', 'every byte string of up to 4 bytes'),
        h('h_c28_int_edge', 'a sign or arbitrary character, digits up to the ends of the 64-bit range, and up to 3 arbitrary characters'),
        h('h_c28_long', 'texts of 12 to 200 characters with quotes and separators and an arbitrary one at one of 5 places; taken apart completely'),
        h('h_c28_trim_long', 'up to 19 white characters on either side of up to 100 others'),
        h('h_c28_int_long', 'up to 100 zeros and up to 19 digits, the last character arbitrary'),
    ],
    thorough=[h('h_c28_split13', 'up to 13 bytes'), h('h_c28_trim13', 'up to 13 bytes')],
    outside='other longer strings',
)
URL = 'Url::parse and query_pairs of the url crate are executed as they are'
PROPS['C29'] = dict(
    area='root',
    quick=[
        h('h_c29_url', 'every text of up to 4 bytes'),
        h('h_c29_scheme', 'four beginnings, with up to 3 arbitrary bytes'),
        h('h_c29_query', 'magnet:? and up to 3 arbitrary bytes'),
        h('h_c29_field2', 'each of 10 fields with a value of up to 2 arbitrary bytes, before or after a good info-hash'),
        h('h_c29_two', 'any two of the fields with up to 1 arbitrary byte each'),
        h('h_c29_window', 'four good links with any byte, or a character of 2, 3 or 4 bytes, in place of any character before the hash; with or without the hash'),
        h('h_c29_so6', 'file selections of up to 6 characters of 0, 1, - and ,'),
        h('h_c31_so_limit', 'one or two numbers or a range around the index limit and the ends of the 64-bit range'),
        h('h_c30_text32', 'info-hashes of 32 characters, two neighbouring ones arbitrary'),
        h('h_c29_long', 'each of 10 fields with a value of 50 to 2000 characters of 10 kinds, one of them arbitrary, with or without the hash'),
    ],
    thorough=[h('h_c29_window2', 'any two neighbouring bytes in these links'), h('h_c29_field3', 'values of up to 3 arbitrary bytes'), h('h_c30_hex', 'info-hashes of 40 characters, two neighbouring ones arbitrary'),
              h('h_c29_so4', 'file selections of up to 4 characters of all digits, - and ,')],
    outside='longer texts of other shapes',
    assume=[URL],
)
PROPS['C30'] = dict(
    area='root',
    quick=[
        h('h_c30_hex', '40 characters, two neighbouring ones arbitrary, followed by another field or not'),
        h('h_c30_base32', '32 base32 characters of a hash with two neighbouring arbitrary bytes, in upper, lower or mixed case or 1 for I'),
        h('h_c30_text32', '32 characters, two neighbouring ones arbitrary'),
        h('h_c30_length', 'every length up to 50, four kinds of digit, other urn kinds and other field names'),
        h('h_c30_among3', 'up to 3 fields of 7 kinds: hashes in hexadecimal and base32, all zeros and all ones, other xt fields, an invalid hash'),
        h('h_c30_back', 'printing and parsing: hashes with two neighbouring arbitrary bytes'),
    ],
    thorough=[h('h_c30_hex3', 'three neighbouring arbitrary characters', limit=1500), h('h_c30_among4', 'up to 4 fields')],
    outside='hashes that differ from the pattern elsewhere (each digit is decoded alike)',
    assume=[URL],
)
PROPS['C31'] = dict(
    area='root',
    quick=[
        h('h_c31_so', 'selections of up to 3 characters of all digits, - and ,'),
        h('h_c31_so7', 'selections of up to 7 characters of 0, 1, - and ,'),
        h('h_c31_so_limit', 'one or two numbers or a range around the index limit and the ends of the 64-bit range'),
        h('h_c31_so_two', 'two selections, with arbitrary digits and other characters'),
        h('h_c31_order4', 'up to 4 fields of 5 kinds in any order, the info-hash anywhere'),
        h('h_c31_text', 'names, trackers and web seeds of up to 2 bytes of any UTF-8 text, percent-encoded in either case, as + or written out'),
        h('h_c31_peer', 'IPv4 and IPv6 endpoints with arbitrary digits'),
        h('h_c31_node', 'hosts of up to 2 characters, ports with arbitrary digits, with and without a colon'),
        h('h_c31_many', '5 to 150 trackers with as many other fields between them'),
        h('h_c31_into', 'parsing into parameters that hold up to 3 trackers, seeds, peers and nodes and up to 5 tiers'),
        h('h_c31_so_many', 'selections of 5 to 40 indices and ranges in no order, with invalid ones and an arbitrary character'),
    ],
    thorough=[h('h_c31_text3', 'texts of up to 3 bytes'), h('h_c31_so4', 'selections of up to 4 characters of all digits, - and ,'), h('h_c31_order5', 'up to 5 fields')],
    outside='other longer links; the end of a range written as -0',
    assume=[URL],
)
PROPS['C32'] = dict(
    area='root',
    quick=[
        h('h_c32_fields', 'metadata of a file or a directory: each field missing or of each other type; pieces of 0 to 41 arbitrary bytes; length and files together, or neither'),
        h('h_c32_types', 'documents that are no torrent; other entries'),
        h('h_c32_extra', 'an unknown entry with any ASCII key of up to 12 bytes, of 4 types, in the document, the info dictionary or a file'),
        h('h_c32_int', 'piece and file lengths of up to 3 arbitrary digits with and without a minus sign'),
        h('h_c32_edge', 'lengths at the ends of the 64-bit range'),
        h('h_c32_files3', 'up to 3 files with paths of up to 2 segments with an arbitrary character; one of 6 defects in any of them'),
        h('h_c32_name', 'names of up to 4 arbitrary bytes'),
        h('h_c32_url', 'announce URLs with up to 2 arbitrary bytes'),
        h('h_c32_free', 'every document of up to 5 bytes'),
        h('h_c32_cut', 'a good document of either kind cut off anywhere or with one arbitrary byte anywhere'),
        h('h_c32_many', '4, 10 and 60 files with paths of up to 4 segments, one of them with an arbitrary character or one of 4 defects'),
        h('h_c32_long', '60 to 5019 bytes of pieces, names of 20 to 3000 bytes, long announce URLs, one byte of each arbitrary'),
    ],
    thorough=[],
    outside='other larger documents; the bencode decoder itself is C02, C03 and C06; host names in announce URLs',
    assume=['a piece length of zero may be refused', URL],
)
PROPS['C33'] = dict(
    area='root',
    quick=[
        h('h_c33_name7', 'every ASCII name of up to 7 bytes'),
        h('h_c33_dir', 'directories with every ASCII name of up to 3 bytes and two files, one with a path of an arbitrary segment of up to 2 bytes and x'),
        h('h_c33_path', 'up to 3 segments of up to 2 ASCII bytes each'),
        h('h_c33_path3', 'up to 3 segments of up to 3 ASCII bytes each'),
        h('h_c33_long3', 'names and segments of 5 to 30 bytes with three arbitrary bytes at one of four places'),
        h('h_c33_many3', 'every segment of up to 3 bytes among up to 25 in one of up to 20 files'),
    ],
    thorough=[h('h_c33_name10', 'names of up to 10 bytes'), h('h_c33_dir4', 'names of up to 4 and segments of up to 3 bytes'), h('h_c33_path4', 'up to 4 segments of up to 3 bytes')],
    outside='other longer names and paths; paths are Unix paths',
)
PROPS['C34'] = dict(
    area='dht',
    quick=[h('h_c34_verify', 'dictionaries with any subset of 4 keys of any type, with those keys inside as well, and other values; descriptions of up to 3 of those keys or an unknown one, in any order and repeated'),
        h('h_c34_many', 'descriptions of up to 12 keys in either order, one of them missing or none')],
    thorough=[],
    outside='other keys, other descriptions of more than 3',
)
DEEP = 'documents of 80 levels, list or dictionary by any pattern of three, three kinds of leaf; at most 60 nested calls'
PROPS['C35'] = dict(
    area='bencode',
    quick=[h('h_c35_' + n, d + DEEP, **{'max-depth': 60, 'max-viol': 3}) for n, d in (
        ('decode', 'decoding an owned value: '),
        ('decode_ref', 'decoding a borrowed value: '),
        ('cut', 'documents that end early or go on with any other byte: '),
        ('encode', 'encoding what was decoded: '),
        ('encode_ref', 'the same, borrowed: '),
        ('walk', 'reading down to the leaf: '),
        ('walk_ref', 'the same, borrowed: '),
        ('drop', 'dropping an owned value: '),
        ('drop_ref', 'dropping a borrowed value: '),
        ('error', 'decoding an owned value with an error after a complete deep value, which is dropped: '),
        ('error_ref', 'the same, borrowed: '),
        ('clone', 'cloning an owned value: '),
        ('clone_ref', 'cloning a borrowed value: '),
        ('to_owned', 'ValueRef::to_owned: '),
        ('as_ref', 'Value::as_ref: '),
        ('eq', 'comparing owned values: '),
        ('eq_ref', 'comparing borrowed values: '),
        ('cmp', 'ordering owned values: '),
    )],
    thorough=[],
    outside='levels beyond 80: a call per level is found at this depth; counterexamples are replayed with 400000 levels and the usual stack of 8 MiB',
    assume=['calls the compiler removes (tail calls, inlining) do not count'],
)
PROPS['C36'] = dict(
    area='dht',
    quick=[
        h('h_c36_pick3', 'every choice of 1 or 2 of 3 peers is the answer for some random outcome', reach=True),
        h('h_c36_pick4', 'every choice of 1 to 3 of 4 peers', reach=True),
        h('h_c36_pick5', 'every choice of 1 to 4 of 5 peers', reach=True),
        h('h_c36_six', 'every choice of 1 to 3 of 4 IPv6 peers', reach=True),
        h('h_c36_seeds', 'every choice of 1 to 3 of 4 peers among 8 when seeds are left out', reach=True),
    ],
    thorough=[],
    outside='more peers; how likely each choice is',
    assume=[RAND],
)

PROPS['C37'] = dict(
    area='common',
    quick=[
        h('h_c37_seed', 'each byte of two seeds takes any value, whatever the other seed holds', reach=True),
        h('h_c37_pair', 'two key pairs can differ, for some outcome of the random source', reach=True),
    ],
    thorough=[],
    outside='whether signatures made with a key verify (no ed25519 code is part of this tree)',
    assume=[RAND],
)
PROPS['C38'] = dict(
    area='common',
    quick=[
        h('h_c38_update', 'every content of 21 lengths up to 200 bytes, against the sha1 crate used directly'),
        h('h_c38_address', 'every IPv4 and IPv6 address'),
        h('h_c38_known', 'one to three contents of each length up to 199 and of 5000 bytes, and 64 addresses of each family, against FIPS 180-4 written out'),
    ],
    thorough=[],
    outside='other lengths; that the sha1 crate computes SHA-1 for every content',
)
PROPS['C39'] = dict(
    area='bencode',
    quick=[
        h('h_c39_tree', 'six shapes of values with arbitrary bytes, both forms; writers that take at most 1 to 5 bytes at a time, are never interrupted or every second time, and stop quietly or fail after any number of bytes'),
        h('h_c39_long', 'values with strings of up to 5000 bytes; the same writers, that stop at one of 12 places'),
    ],
    thorough=[],
    outside='larger values',
)
PROPS['C40'] = dict(
    area='bencode',
    quick=[
        h('h_c40_pair3', 'every pair of trees of up to 3 nodes and 2 levels with one-digit integers and strings and keys of up to 1 byte'),
        h('h_c40_leaf', 'every pair of 64-bit integers; every pair of byte strings of up to 6 bytes'),
        h('h_c40_triple', 'three values of five shapes: the order is transitive'),
        h('h_c40_wide', 'lists and dictionaries of 5 to 90 entries that differ in one place or nowhere'),
    ],
    thorough=[],
    outside='other larger values',
)
PROPS['C41'] = dict(
    area='bencode',
    quick=[
        h('h_c41_make', 'every integer; byte strings of up to 20 and texts of up to 5 bytes; lists and dictionaries of up to 3 nodes'),
        h('h_c41_text7', 'every text of up to 7 bytes'),
        h('h_c41_show', 'strings of up to 4 arbitrary bytes, alone, in lists, in dictionaries and among up to 260 others; strings of 99 to 5000 bytes with an arbitrary one'),
        h('h_c41_error', 'every error with every byte'),
    ],
    thorough=[],
    outside='longer texts',
)

NA = {
}
HOOK_COMMITS = ['6e2dd56', '94be1e0']
