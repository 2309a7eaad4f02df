#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

V, R, RD = "bencode/src/value.rs", "bencode/src/value_ref.rs", "bencode/src/reader.rs"
p("C01", "Bencode values survive encoding and decoding",
  "Encoding any bencode value (integer, byte string, list, dictionary, nested in any way, owned or borrowed) and decoding the bytes gives back an equal value. The bytes are one well-formed bencode document: dictionary entries in ascending key order, shortest-form numbers, and string contents copied verbatim.",
  ["inputs"], "every value: any i64, any byte string, any nesting of lists and dictionaries, any UTF-8 keys",
  "Tests encode about five fixed values; none encodes extreme or negative integers, empty containers, nested dictionaries or arbitrary key orders, and none decodes what it encoded.",
  [V, R, RD], [("explicit token stack that pushes children in reverse", V + " encode"), ("same, for borrowed values", R + " encode"), ("container stack that closes on 'e'", V + " decode_with_limits")],
  observe=["Value::to_vec", "ValueRef::to_vec", "Value::decode", "ValueRef::decode"])
p("C02", "Decoding untrusted bytes always returns a result",
  "For every byte string, both bencode decoders, with any depth and item limits, return either a value or an error: they never panic, never overflow, never read outside the input and never loop forever. The value and the error can then be shown, re-encoded, converted and dropped without a panic.",
  ["inputs"], "every byte string and every combination of limits",
  "Tests feed about 30 fixed documents; malformed length prefixes, truncated tokens, stray terminators and non-ASCII digits at every position are not covered.",
  [V, R, RD, "bencode/src/error.rs"], [("bounds checks before slicing", RD + " read_exact/read_until"), ("utf8 + checked integer parse", RD + " read_int_until")],
  observe=["Value::decode_with_limits", "ValueRef::decode_with_limits", "Value::from_str"])
p("C03", "The decoder accepts exactly the bencode grammar and reads it correctly",
  "A document is accepted if and only if it is exactly one complete bencode item with nothing after it, in which every string has its full declared length, every integer fits in 64 bits and every dictionary is a sequence of pairs whose keys are UTF-8 strings. The decoded value is the one the document denotes: list order, every dictionary entry, string bytes and signed integers are those written in it.",
  ["inputs"], "every byte string (dictionaries with a repeated key only need to be accepted or rejected consistently; which entry wins is not specified)",
  "Tests pin a handful of accepted and rejected documents; acceptance of truncated, concatenated or oddly nested documents is a property of all byte strings.",
  [V, R, RD], [("end-of-input test on the two stacks", V + " decode_with_limits tail"), ("pair check when a dictionary closes", V + " decode_with_limits")],
  observe=["Value::decode", "ValueRef::decode"])
p("C04", "Canonical documents re-encode byte for byte",
  "If a document is canonical bencode (sorted distinct keys, shortest-form numbers and lengths) then decoding and re-encoding it reproduces exactly the same bytes, for the owned and the borrowed representation. For any accepted document, re-encoding the decoded value is stable: decoding and encoding it once more changes nothing.",
  ["inputs"], "every accepted document",
  "Info-hashes and signatures depend on this for all inputs; tests re-encode two fixed dictionaries.",
  [V, R], [("ordered map for dictionaries", V + " Dict(BTreeMap)"), ("encoder", V + " encode")],
  observe=["decode + to_vec"])
p("C05", "Depth and item limits are enforced exactly",
  "With a depth limit D and an item limit N, a document is accepted exactly when it is accepted without limits, no item in it is enclosed in more than D containers, and it contains at most N items besides the outermost one. An accepted document gives the same value as without limits, and a limit that is absent never causes a rejection.",
  ["inputs", "configurations"], "every document and every pair of optional limits",
  "Two tests try three limit values on one nested list and one flat list; mixed nesting, dictionaries, limit 0 and limits hit at the same time as another error are untested.",
  [V, R], [("check before each item is opened", V + " decode_with_limits"), ("check before each item is opened", R + " decode_with_limits")],
  observe=["decode_with_limits"])
p("C06", "Owned and borrowed bencode forms always agree",
  "For every byte string and every limits, the owned and the borrowed decoder either both accept, with values that convert into each other without loss, or both fail with the same error. Converting a value to the other form and back, or encoding either form, gives the same value and the same bytes.",
  ["inputs", "configurations"], "every byte string, limits and value",
  "The two decoders and encoders are separate copies of the code; the tests are run on each but never compare them.",
  [V, R, "bencode/src/lib.rs"], [("conversions", "bencode/src/lib.rs to_owned/as_ref")],
  observe=["Value::decode", "ValueRef::decode", "to_owned", "as_ref"])
p("C07", "Typed access to bencode values never misreports",
  "Each typed accessor (is_*, as_*, into_*, dictionary lookup by key and type, list element by index, lengths) returns a result exactly when the value has that type and the key or index is present, and then returns that very element. Otherwise it returns nothing; no accessor ever panics, for any value, key or index.",
  ["inputs"], "every value, key and index, owned and borrowed",
  "One test queries one fixed dictionary; index bounds and wrong-type lookups for every accessor are not covered.",
  [V, R, "bencode/src/lib.rs"], [("macro-generated type tests", "bencode/src/lib.rs"), ("dict_find*, list_*_at", V)],
  observe=["Value / ValueRef accessors"])

S = "common/src/sha1.rs"
p("C08", "Shifting a 160-bit hash is exact for every shift amount",
  "Shifting a hash left or right by any amount equals the same shift of the 160-bit big-endian number it denotes, with zeros shifted in and everything beyond 160 bits dropped. It never panics and never reads or writes memory outside the hash.",
  ["inputs"], "all 2^160 hashes and every shift amount",
  "Tests shift only the all-ones hash by 0, 5, 16, 17, 160 and 20000.",
  [S], [("byte move + bit carry", S + " shl_assign/shr_assign")], observe=["<<=, >>= on Sha1Hash"])
p("C09", "Hash algebra, ordering and construction behave as 160-bit numbers",
  "On 20-byte hashes, and/or/xor/not in every operand form are the bitwise operations of the 160-bit numbers, comparison is the numeric order of the big-endian numbers, and the leading-zero count is the number of leading zero bits (160 for zero). A hash is built from a byte slice exactly when it has 20 bytes, and keeps those bytes.",
  ["inputs"], "all pairs of hashes, all byte slices",
  "Tests use constants such as all-zero, all-one and 0x01 repeated; not every bit position, operand form or length.",
  [S], [("impl_binary_op macro", S), ("leading_zeros, from_bytes, derived Ord", S)], observe=["operators on Sha1Hash", "Sha1Hash::from_bytes", "leading_zeros"])
p("C10", "Hexadecimal encoding round-trips and rejects non-hex",
  "Encoding any bytes in hexadecimal gives two lower-case digits per byte, and decoding that text (in either letter case) gives back the same bytes. Decoding reports failure for every text of odd length or with a character that is not a hexadecimal digit, and the digit classifier accepts exactly 0-9, a-f and A-F.",
  ["inputs"], "every byte string and every text that fits the output buffer",
  "The decode test checks only that decoding succeeds, never what it produced.",
  ["common/src/hex.rs"], [("digit table and nibble arithmetic", "common/src/hex.rs")], observe=["to_hex", "from_hex", "is_hex", "hex_to_int", "Display of Sha1Hash"])
B = "common/src/bloom_filter.rs"
p("C11", "Bloom filters never lose a key",
  "After any sequence of insertions into a bloom filter of either size, every inserted key is found; insertion sets only the (at most two) bits of that key, clears none, and a fresh or cleared filter finds nothing. A key is reported found exactly when both of its bits are set, the bytes of a filter rebuild an identical filter, and the size estimate depends only on the number of zero bits and never decreases when a key is inserted.",
  ["inputs", "histories"], "every filter content, key and insertion history, 128 and 256 bytes",
  "Tests insert two fixed keys in a 32-byte test-only filter; the production sizes 128 and 256 are never exercised.",
  [B], [("has_bits / set_bits index arithmetic", B), ("count_zero_bits nibble table", B)], observe=["find", "set", "clear", "as_bytes", "From", "size"])
p("C12", "Clamping and random selection stay in range",
  "Clamping a value returns the value itself when it lies within the bounds and otherwise the nearest bound. A random index drawn below a positive limit is always less than that limit, whatever the random source yields, and filling a buffer with random bytes overwrites all of it.",
  ["inputs", "schedules"], "every value and bounds, every limit, every outcome of the random source",
  "Neither function has a test, and a random draw cannot be settled by sampling.",
  ["common/src/lib.rs", "common/src/random.rs"], [("clamp", "common/src/lib.rs"), ("gen_range, fill_bytes", "common/src/random.rs")], observe=["common::clamp", "common::random::random_usize", "common::random::fill_bytes"])

D = "dht/src/detail.rs"
p("C13", "Compact peer addresses round-trip in network byte order",
  "Writing an IP address or socket address in compact form emits exactly 4 or 16 address bytes in network order, followed for sockets by the port in big-endian order, and reading those bytes back gives the same address and consumes exactly that many bytes. This holds for streams that move a few bytes at a time or are interrupted; input that is too short, or output without enough room, is reported as an error, never as a panic or a partial address.",
  ["inputs"], "every IPv4 and IPv6 address, every port, every truncated buffer, every way a stream splits or fails",
  "No test calls these functions.",
  [D], [("write_*/read_* functions", D)], observe=["dht::detail"])
ST = "dht/src/state.rs"
p("C14", "Saved DHT state is restored exactly",
  "Saving a DHT state, encoding it, decoding it and reading it back restores the same node identities with their addresses and the same IPv4 and IPv6 node lists, in the same order. Nothing is added, dropped or moved between the lists, and a cleared state holds and saves nothing.",
  ["inputs", "histories"], "every list of node ids (IPv4 or IPv6) and every list of nodes (endpoints are an IP address and a port; IPv6 flow and scope ids are not part of the format)",
  "No test saves or reads a state; only a demo binary does, with one entry.",
  [ST, D], [("save / read", ST)], observe=["DhtState::save", "DhtState::read"])
p("C15", "Reading DHT state tolerates any stored document",
  "Reading a DHT state from any bencode value returns a state without panicking: entries of the wrong type or length are skipped, all well-formed entries are kept in order, and absent keys give empty lists. A single 20-byte node id in the old format is accepted as one node id at the loopback address.",
  ["inputs"], "every bencode value, including every wrong type and every entry length",
  "No test reads a state.",
  [ST], [("length filters 24/36 and 6/18", ST)], observe=["DhtState::read", "extract_node_ids"])
SE = "dht/src/settings.rs"
p("C16", "Saved DHT settings are restored exactly",
  "Saving DHT settings and reading them back, directly or through encoded bytes, restores the value of every setting.",
  ["configurations"], "every assignment of all settings",
  "No test saves or reads settings.",
  [SE], [("set_int/set_bool and read_int/read_bool lists", SE)], observe=["DhtSettings::save", "DhtSettings::read"])
p("C17", "Reading DHT settings tolerates any document",
  "Reading settings from any bencode value never panics: every setting that is present as an integer takes that value (non-zero meaning true for switches; a count that is not negative), and every setting that is absent or not an integer keeps its default. Unknown keys change nothing.",
  ["inputs", "configurations"], "every bencode value",
  "No test reads settings.",
  [SE], [("read_int/read_bool macros", SE)], observe=["DhtSettings::read"])
N = "dht/src/node.rs"
p("C18", "Node distance follows the Kademlia XOR metric",
  "For two different node ids the distance exponent is the n with 2^n <= (id1 xor id2) < 2^(n+1); it is symmetric and is 0 for equal ids. The minimum distance exponent to a non-empty set of ids is the smallest of the individual exponents, and neither function ever panics on such arguments.",
  ["inputs"], "all pairs of 160-bit ids, all non-empty id sets",
  "No test calls these functions.",
  [N, S], [("xor + leading_zeros", N)], observe=["distance_exp", "min_distance_exp"])
SG = "dht/src/storage.rs"
HK = None
p("C19", "A peer lookup returns exactly the peers it may return",
  "Looking up peers for a torrent returns compact endpoints that were announced for that torrent, in the requester's address family, each at most once, and no seeds when seeds are excluded. The number returned is the number of eligible peers, capped at the configured reply size (a quarter of it for IPv6), and the torrent's name, the first non-empty one announced (its first 100 characters), is included, whatever the random choices are. The reply dictionary keeps its other entries, and values it already holds, which do not count against the reply size.",
  ["histories", "schedules", "configurations"], "every announce history, requester, flags, settings and every outcome of the random source",
  "The storage test file contains no test, and the selection is random.",
  [SG, "common/src/random.rs", D], [("selection sampling loop", SG + " get_peers"), ("sorted peer vectors", SG + " announce_peer")],
  state=[("peers4/peers6", "announced peers sorted by address", SG + " TorrentEntry")], observe=["DhtStorage::announce_peer", "DhtStorage::get_peers"])
p("C20", "Peer storage respects its capacity and keeps known peers updatable",
  "The storage never tracks more torrents than its configured maximum, nor more peers per torrent and address family than its configured maximum; announces beyond that are dropped and add no torrent and no peer. Re-announcing a known peer updates its seed flag in place even at capacity, and a lookup reports 'full' exactly when an announce by the requester would be dropped (given room for at least one peer per torrent).",
  ["histories", "configurations"], "every announce history and every capacity setting (a dropped announce may still leave the name of a known torrent)",
  "No test announces anything.",
  [SG], [("capacity checks", SG + " announce_peer/get_peers"), ("binary search on address", SG)], observe=["announce_peer", "get_peers"])
p("C21", "Immutable items: what is stored is returned, within capacity",
  "An immutable item that was put and not evicted is returned with exactly the stored content, and a missing one is reported missing and fills nothing in. The table never exceeds its configured size (at least 1); when it is full, a new item evicts exactly one item, one with the lowest importance (one fifth of its distinct announcers, minus its distance exponent from our node ids), and putting an existing item evicts nothing.",
  ["histories", "configurations"], "every history of puts by any addresses, any node ids, any capacity of at least 1",
  "No test stores an item.",
  [SG, N], [("pick_least_imp", SG), ("touch_item with bloom filter", SG)], observe=["put_immutable_item", "get_immutable_item"])
p("C22", "Mutable items never move back to an older version",
  "After any history of puts to a mutable item, a lookup returns the content, signature and sequence number of the put with the highest sequence number (the first of equals), with the key it was stored under; the sequence number never decreases. The content is included exactly when forced or when the caller's non-negative sequence number is older, and the table stays within its configured size by evicting only the least important item.",
  ["histories", "configurations"], "every history of puts and gets, any sequence numbers (64-bit signed)",
  "No test stores a mutable item.",
  [SG], [("seq comparison", SG + " put_mutable_item/get_mutable_item")], observe=["put_mutable_item", "get_mutable_item", "get_mutable_item_seq"])
p("C23", "A scrape's filters cover every announced peer",
  "A scrape reply carries two 256-byte bloom filters, one for downloaders and one for seeds: the address of every announced peer of the requester's family is found in the filter matching its latest seed flag, and the filters contain nothing but those peers' bits. A scrape never returns peer endpoints.",
  ["histories"], "every announce history",
  "No test scrapes.",
  [SG, B], [("scrape branch", SG + " get_peers")], observe=["get_peers(scrape = true)"])
p("C24", "Node ids and item lookups are independent between targets",
  "Operations on one torrent, immutable item or mutable item never change what is returned for another one, except for the single eviction the capacity requires; replacing the set of node ids changes no stored data.",
  ["histories"], "every history of mixed operations on several targets",
  "No test drives the storage.",
  [SG], [("separate tables keyed by target", SG)], observe=["DhtStorage trait"])
p("C25", "Sorted insertion position is a true lower bound",
  "For an ascending slice, the lower-bound search returns the number of elements smaller than the given value, so inserting there keeps the slice sorted.",
  ["inputs"], "every sorted slice and value",
  "No test calls the function.",
  [D], [("lower_bound", D)], observe=["dht::detail::lower_bound"])

U, M = "src/str_utl.rs", "src/magnet_uri.rs"
h = "re-export of the crate-private module under the verification cfg"
p("C26", "Percent-decoding is exact and rejects malformed escapes",
  "Unescaping replaces each %XY by that byte, each + by a space and keeps every other byte; it fails exactly when a % is not followed by two hexadecimal digits, or, for the text form, when the result is not UTF-8. So unescaping an escaped byte string always gives it back.",
  ["inputs"], "every byte string",
  "One fixed string is tested (and that test does not even compile in this repository).",
  [U], [("unescape_bytes, unescape_string", U)], observe=["unescape_bytes", "unescape_string"], hook=h)
p("C27", "Base32 decoding inverts base32 encoding",
  "Decoding the RFC 4648 base32 encoding of any bytes, with or without its padding and in either letter case, returns those bytes ('1' counts as 'I'). A text with any character outside the alphabet decodes to nothing, and padding characters never produce data: a group of eight characters gives the bytes of the digits before its first padding.",
  ["inputs"], "every byte string and every text",
  "Ten fixed strings are tested (and those tests do not compile in this repository).",
  [U], [("base32_decode group loop and output-length table", U)], observe=["base32_decode"], hook=h)
p("C28", "Tokenising and trimming never lose or invent text",
  "Splitting a string gives a first token and the rest such that token, at most one separator and rest make up the input; the token contains no separator outside its leading quoted section, and a non-empty input always makes progress. Trimming returns the input without its leading and trailing whitespace and nothing else, and integer parsing accepts exactly the decimal integers that fit.",
  ["inputs"], "every byte string and separator",
  "Eight fixed strings each (in tests that do not compile in this repository).",
  [U], [("split_string, trim, parse_int", U)], observe=["split_string", "trim", "parse_int"], hook=h)
p("C29", "Parsing any magnet link terminates without a crash",
  "For every text, parsing it as a magnet link returns parameters or an error: it never panics, never loops forever and never allocates beyond the documented file-index limit.",
  ["inputs"], "every text, in particular every value of the xt, so, x.pe, dht, tr, ws and dn fields",
  "There is no test of magnet parsing.",
  [M, U], [("parse_magnet_uri", M)], observe=["TorrentParams::from_str"], hook=h)
p("C30", "Magnet links carry the info-hash faithfully",
  "A magnet link yields the info-hash it names when that is written as 40 hexadecimal or 32 base32 characters, and is rejected when the hash is missing, has another length or contains an invalid character. Other fields of the link, exact topics of other kinds included, do not matter. Printing torrent parameters as a magnet link and parsing it back restores the info-hash.",
  ["inputs"], "every 20-byte hash in both encodings and letter cases, every malformed hash text",
  "There is no test of magnet parsing.",
  [M, U, "common/src/hex.rs"], [("xt branch", M), ("Display", M)], observe=["TorrentParams::from_str", "TorrentParams Display"], hook=h)
p("C31", "Magnet link parameters are collected completely and in order",
  "Trackers get consecutive tiers in the order given, and web seeds, the display name, peers and DHT nodes are those in the link, percent-decoded and in order. Selected files are exactly the valid indices and ranges listed: those files get default priority, all others below the highest selected index are not downloaded, and invalid list elements select nothing (a selection with other characters than digits, '-' and ',' is ignored, and one with an element that is no number or does not fit may be refused with the link). Parsing into parameters that already hold some keeps those, in front of the new ones.",
  ["inputs"], "every combination and order of link parameters",
  "There is no test of magnet parsing.",
  [M, U], [("query loop", M)], observe=["TorrentParams::from_str"], hook=h)
T = "src/torrent.rs"
p("C32", "Torrent metadata is read faithfully and validated",
  "A metadata file is accepted only if it is a dictionary with an announce URL and an info dictionary holding a name, a piece length, piece hashes of 20 bytes each, and either one file length or a list of files, not both; names, lengths, paths and hashes of an accepted torrent are exactly those in the file. Unknown entries do not matter. Parsing never panics, and negative lengths are rejected.",
  ["inputs"], "every byte string",
  "The only test includes a file that is not in the repository and does not compile.",
  [T], [("Torrent::parse", T)], observe=["Torrent::parse"], hook="accessors for the crate-private Torrent under the verification cfg")
p("C33", "File paths of a torrent stay inside the download directory",
  "Every file path of an accepted torrent is relative and has only ordinary components: no path segment or single-file name taken from the metadata can make it absolute or climb to a parent directory.",
  ["inputs"], "every name and every list of path segments in the metadata",
  "No test parses a torrent; malicious names are an adversarial input.",
  [T], [("PathBuf assembly", T)], observe=["Torrent::parse"], hook="accessors for the crate-private Torrent under the verification cfg")
p("C34", "DHT messages are verified against every required key",
  "Verifying a message succeeds exactly when it is a dictionary that contains every key of the description, and then hands out, for each key in order, the value stored under that key. Otherwise it reports an error, and never panics.",
  ["inputs"], "every bencode value and every key description",
  "No test calls it.",
  ["dht/src/msg.rs"], [("verify_message_impl", "dht/src/msg.rs")], observe=["verify_message_impl"], hook="constructor for the private-field key description under the verification cfg")
p("C35", "Nesting depth of a document cannot exhaust the stack",
  "Decoding a document without limits, reading its values, encoding a value, and converting, comparing or dropping the result use an amount of call stack that does not grow with the nesting depth of the document.",
  ["inputs"], "every nesting depth",
  "The depth test stops at 1024 levels.",
  [V, R, "bencode/src/lib.rs"], [("explicit stacks in encode and decode; recursive drop glue and conversions", V)], observe=["Value::decode + drop", "to_owned", "as_ref"])
p("C36", "No eligible peer is systematically left out of replies",
  "When more peers are eligible than a reply may hold, every selection of as many eligible peers as fit is returned under some outcome of the random source, so no peer and no combination of peers is systematically left out.",
  ["schedules"], "all outcomes of the random source, all selections",
  "Which selections can never happen cannot be read off sample runs.",
  [SG], [("selection sampling loop", SG + " get_peers")], observe=["get_peers"])
p("C37", "Signing seeds and keys are drawn from the random source",
  "Every byte of a generated seed comes from the random source: any byte of any two seeds can take any value, so no two seeds need be equal. Two generated key pairs can differ, in the public and in the secret key.",
  ["schedules"], "every outcome of the random source",
  "There is no test, and no sample shows which bytes can never vary.",
  ["common/src/ed25519.rs", "common/src/random.rs"], [("create_keypair, create_seed", "common/src/ed25519.rs")], observe=["create_seed", "create_keypair"])
p("C38", "Hashes are the SHA-1 of exactly the given bytes",
  "Hashing a byte slice gives the SHA-1 digest of exactly those bytes, whatever their number. Hashing an IP address gives the SHA-1 digest of its 4 or 16 octets in network order, so equal addresses share a hash and an IPv4 address is never hashed as an IPv6 one or the other way round.",
  ["inputs"], "every byte string, every IPv4 and IPv6 address",
  "No test computes a hash.",
  [S], [("update, from_address", S)], observe=["Sha1Hash::update", "Sha1Hash::from_address"])
p("C39", "Encoding reports every failure of the writer and loses no bytes",
  "Encoding a value, owned or borrowed, into any writer succeeds exactly when the writer takes the whole document, however few bytes it takes at a time and even if it is interrupted. When the writer fails or takes no more, its error is returned (a write-zero error if it gave none) and what was written is exactly the beginning of the document.",
  ["inputs", "schedules"], "every value, every way a writer splits, interrupts, refuses or fails writes",
  "Tests only encode into vectors, which never fail.",
  [V, R], [("write! and write_all in the encoders", V + " encode")], observe=["Value::encode", "ValueRef::encode"])
p("C40", "Equality and order of bencode values are those of their documents",
  "Two values are equal exactly when they have the same canonical encoding, and copies are equal to their originals. The order is total, antisymmetric and transitive, calls only equal values equal, orders integers by number and byte strings lexicographically, and is the same for the owned and the borrowed form.",
  ["inputs"], "every pair and triple of values, owned and borrowed",
  "Tests compare a decoded value with one expected value; no test shows two values to be different or orders them.",
  [V, R], [("derived comparison", V), ("derived comparison", R)], observe=["PartialEq, PartialOrd and Clone of Value and ValueRef"])
p("C41", "Bencode values are made, read from text and shown unchanged",
  "The constructors and conversions from integers, text, bytes, lists and dictionaries give a value of that type with exactly that content. Parsing a text gives what decoding its bytes gives, showing a value gives its encoding (bytes that are not UTF-8 replaced), and a decoding error turned into an I/O error has the kind unexpected-end-of-file when the input ended early, other for the I/O error and invalid-data for all others.",
  ["inputs"], "every integer, text, byte string and value; every error",
  "Tests show two values and convert no error.",
  [V, R, "bencode/src/error.rs"], [("constructors, From, FromStr, Display", V), ("From<Error> for io::Error", "bencode/src/error.rs")], observe=["with_*", "From", "FromStr", "Display", "io::Error::from"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
