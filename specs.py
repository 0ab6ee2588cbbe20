"""What each check runs: harness files, jobs (entry, arguments) per tier, bounds."""
import math
MD5, SHA1, SHA224, SHA256, SHA384, SHA512, S224, S256, K224, K256, K384, K512, RS128, SH128, RS256, SH256 = range(16)
BLOCK = [64, 64, 64, 64, 128, 128, 128, 128, 144, 136, 104, 72, 168, 168, 136, 136]
DIG = [16, 20, 28, 32, 48, 64, 28, 32, 28, 32, 48, 64, 32, 32, 64, 64]
SPECS = {}
NOT_APPLICABLE = {}


def md_lengths(b):
    """all padding edges over two blocks plus the start of a third"""
    lf = b // 8
    return sorted(set(list(range(0, 4)) + [b - lf - 2, b - lf - 1, b - lf, b - lf + 1, b - 2, b - 1, b, b + 1, 2 * b - lf - 1, 2 * b - lf, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b - 5]))



def J(e, *args):
    return (e, args)


def edges(b, k):
    """lengths around the padding limits and block ends, up to k blocks"""
    lf = b // 8 if b in (64, 128) else 1
    s = set(range(0, 5))
    for i in range(k):
        o = i * b
        s |= {o + b - lf - 2, o + b - lf - 1, o + b - lf, o + b - lf + 1, o + b - 2, o + b - 1, o + b, o + b + 1, o + b // 2}
    return sorted(s)


HASH_OUTSIDE = "messages longer than the listed lengths (the step from one block to the next is covered for any state by H08)"


def hash_spec(algs, all_upto, thorough_upto):
    q = [J("h_oneshot", a, n) for a in algs for n in range(0, all_upto + 1)]
    q += [J("h_oneshot", a, n) for a in algs for n in edges(BLOCK[a], 4) if n > all_upto]
    q += [J("h_context", a, n) for a in algs for n in (0, 1, BLOCK[a] - 1, BLOCK[a], BLOCK[a] + 1)]
    q += [J("h_long", a, 4096 + BLOCK[a] // 2 + 9, 64, 0) for a in algs]
    t = [J("h_oneshot", a, n) for a in algs for n in range(0, thorough_upto + 1)]
    t += [J("h_oneshot", a, n) for a in algs for n in (1000, 1024, 2047)]
    t += [J("h_long", a, n, 96, p) for a in algs for n in (20000, 65536 + 70) for p in (0, 1000)]
    return dict(harness=["hash.c"], quick=q, thorough=t, reach=["oneshot", "context", "long"],
                bounds="every message (all byte values symbolic) of every length 0..%d and of lengths at the padding and block edges up to 4 blocks; a 4 KiB message with every value of its last 64 bytes; thorough: every length 0..%d, 1000, 1024, 2047, and 20000/65606-byte messages with every value of the last 96 bytes" % (all_upto, thorough_upto),
                outside=HASH_OUTSIDE)


SPECS["H01"] = hash_spec([SHA1], 130, 400)
SPECS["H02"] = hash_spec([SHA224, SHA256], 130, 300)
SPECS["H03"] = hash_spec([SHA384, SHA512, S224, S256], 130, 300)
SPECS["H04"] = hash_spec([MD5], 130, 400)
SPECS["H05"] = hash_spec([K224, K256, K384, K512], 150, 450)
s6 = hash_spec([RS128, SH128, RS256, SH256], 20, 180)
for a in (RS128, SH128, RS256, SH256):
    r = BLOCK[a]
    outs = [1, 2, 7, 8, 9, 28, 31, 32, 33, 63, 64, 65, 100, r - 1, r, r + 1, r + 8, 2 * r - 1, 2 * r, 2 * r + 1, 300, 3 * r + 5]
    s6["quick"] += [J("h_oneshot", a, n, o) for o in outs for n in (0, 5)] + [J("h_context", a, n, o) for n in (0, r - 1, r, r + 1) for o in (1, r, 2 * r + 3)]
    s6["thorough"] += [J("h_oneshot", a, n, o) for o in range(1, 3 * r + 2) for n in (3,)] + [J("h_oneshot", a, n, o) for n in (r - 1, r, 2 * r) for o in (1, r - 1, r, r + 1, 5 * r, 1024)]
s6["bounds"] = "output lengths 1..3 rates (quick: 22 lengths around word and rate edges) for short messages; " + s6["bounds"]
SPECS["H06"] = s6

ALLA = list(range(16))
q, t = [], []
for a in ALLA:
    b = BLOCK[a]
    q += [J("h_split", a, b + 6, 0, 2), J("h_split", a, b + 9, 0, 0), J("h_pieces", a, 2 * b + 3, 1), J("h_pieces", a, 2 * b + 3, 7), J("h_pieces", a, 3 * b, b - 1)]
    q += [J("h_multiple", a, x, y, z, m) for x, y, z in ((0, 0, 0), (3, 0, 5), (b - 1, 2, b), (b, b, 1)) for m in (0, 2)] + [J("h_multiple", a, 5, 9, 4, m) for m in (1, 4, 5, 7)] + [J("h_multiple0", a), J("h_many", a, 5, 0x208), J("h_many", a, b // 2, 0)]
    q += [J("h_stream", a, n, 40) for n in (0, 1, b, 1023, 1024, 1025, 2048, 2061, 3072)]
    q += [J("h_string", a, n) for n in (0, 1, 7, 33, b, b + 2)] + [J("h_string_any", a, 6)]
    t += [J("h_split", a, min(250, 2 * b + 5), 0, 250), J("h_split", a, 3 * b // 2, b // 2, 40), J("h_pieces", a, 5 * b + 1, 3), J("h_pieces", a, 5 * b, 2 * b - 1)]
    t += [J("h_stream", a, n, 2000) for n in (1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000)] + [J("h_string_any", a, 40)]
    if a >= RS128:
        q += [J("h_multiple", a, 4, 3, 2, 0, 200), J("h_stream", a, 10, 10, 200), J("h_string", a, 10, 200)]
SPECS["H07"] = dict(harness=["hash.c"], quick=q, thorough=t, reach=["split", "pieces", "multiple", "multiple0", "many", "stream", "string"],
                    bounds="contents symbolic; cut positions symbolic (two cuts at most 2 apart over one block + 6, quick; any two cuts over 2 blocks, thorough); byte-wise and odd-size pieces; lists of 0, 3 and 12 pieces with NULL entries; streams up to 3 KiB (5000 bytes thorough); strings up to a block + 2 and any position of the NUL",
                    outside="longer lists of pieces; read errors and short reads of the stdio stream")

q, t = [], []
for a in range(8):
    b = BLOCK[a]
    lf = b // 8
    q += [J("h_midstate", a, i, k) for i in (0, 1, b - lf - 1, b - lf, b - 1) for k in (0, 1, 2, lf + 1)]
    t += [J("h_midstate", a, i, k) for i in range(b) for k in (0, 1, 5)] + [J("h_midstate", a, i, k) for i in (0, 3, b - 1) for k in (b, 2 * b + 1)]
for a in range(8, 16):
    b = BLOCK[a]
    q += [J("h_midstate_keccak", a, i, k) for i in (0, 1, b // 2, b - 2, b - 1) for k in (0, 1, b)]
    t += [J("h_midstate_keccak", a, i, k) for i in range(b) for k in (0, 1, 9)] + [J("h_midstate_keccak", a, i, k) for i in (0, 3, b - 1) for k in (b, 2 * b + 1)]
q += [J("h_long", a, 66000, 32, 0) for a in (MD5, SHA1, SHA256, SHA512, K256)]
q += [J("h_huge", a, p, base, 4, 3 * BLOCK[a] + 20) for a in ALLA for p, base in ((0, 1 << 29), (2, 1 << 29), (BLOCK[a] - 1, 1 << 29), (BLOCK[a] + 5, 1 << 32), (0, 1 << 32))]
t += [J("h_huge", a, p, base, 4, 10 * BLOCK[a]) for a in ALLA for p in (0, 1, 7, BLOCK[a] - 2) for base in (1 << 28, 1 << 30, 1 << 31, 3 << 31, 1 << 35)]
SPECS["H08"] = dict(harness=["hash.c"], quick=q, thorough=t, reach=["midstate", "long", "huge"],
                    bounds="every chaining value / sponge state, every total length consistent with the number of pending bytes (64- or 128-bit symbolic counter), pending bytes at the edges (thorough: every number), then 0..9 (thorough: up to 2 blocks + 1) more bytes; single updates of 66000 bytes; the first three blocks of single updates of every length within 4 bytes of 2^29 and 2^32 (thorough: 2^28 to 2^35) after none, some or a nearly full block of pending bytes",
                    outside="lengths beyond the standards' own limits; more data after the resumed point than stated (follows by repeating the step)")

q, t = [], []
for a in ALLA:
    b = BLOCK[a]
    q += [J("h_reinit", a, u, n, f) for u, n in ((5, 3), (b - 1, b), (b + 9, b - 1)) for f in (0, 1)] + [J("h_overany", a, n) for n in (0, 3, b - 1, b + 2)]
    q += [J("h_interleave", a, (a * 5 + 3) % 16, b // 2 + 3, 5), J("h_interleave", a, a, 7, b + 2), J("h_oneshot_between", a, a, b + 3, 9), J("h_oneshot_between", a, (a * 3 + 1) % 16, 6, BLOCK[(a * 3 + 1) % 16] + 1)]
    t += [J("h_interleave", a, c, BLOCK[a] + 5, BLOCK[c] + 1) for c in ALLA] + [J("h_oneshot_between", a, c, 2 * b + 3, 9) for c in ALLA]
SPECS["H09"] = dict(harness=["hash.c"], quick=q, thorough=t, reach=["interleave", "reinit", "overany", "between"],
                    bounds="two contexts with init, two updates and digest each, in every order (symbolic scheduling choices), algorithm pairs (quick: 32 pairs, thorough: all 256); re-initialisation after finished and abandoned use; initialisation over every memory content",
                    outside="more than two contexts at once; contexts used by several threads (each context is private to its user)")

# ---------------------------------------------------------------- HMAC
FIXED = list(range(12))
q, t = [], []
for a in FIXED:
    b, d = BLOCK[a], DIG[a]
    for kn in (0, 1, d, b - 1, b, b + 1, b + 9, 2 * b, 2 * b + 1):
        q += [J("m_oneshot", a, kn, 3)]
    q += [J("m_oneshot", a, 5, n) for n in (0, b - 1, b, b + 1, 300)] + [J("m_oneshot", a, 300, 3)] + [J("m_select", a, kn, 11) for kn in (4, b, b + 3, 260)]
    q += [J("m_ctx", a, 7, 13, 3, r) for r in (0, 1, 2)] + [J("m_ctx", a, b + 2, b + 3, 5, 0), J("m_ctx", a, 3, 6, b + 5, 2), J("m_nokey", a, 0), J("m_nokey", a, b + 1)]
    t += [J("m_oneshot", a, kn, 3) for kn in range(0, 2 * b + 4)] + [J("m_oneshot", a, 20, n) for n in range(0, 2 * b + 4)] + [J("m_select", a, kn, n) for kn in (0, d, b + 1, 3 * b) for n in (0, 1, 2 * b)] + [J("m_oneshot", a, kn, 200) for kn in (300, 1000)]
SPECS["M01"] = dict(harness=["hmac.c"], quick=q, thorough=t, reach=["oneshot", "select", "ctx", "nokey"],
                    bounds="all 12 algorithms; every key of 0, 1, digest size, block-1..block+1, block+9, 2 blocks, 2 blocks+1, 300 bytes (thorough: every length to 2 blocks+3, 300, 1000) and every message of 0, 3, block-1..block+1, 300 bytes (thorough: every length to 2 blocks+3); contexts over any memory contents with the message cut at every (symbolic) place, keys replaced after abandoned and finished use",
                    outside="longer keys and messages (block step covered by H08)")

# ---------------------------------------------------------------- base encodings
KB = range(5)
q = [J("e_encode", k, n) for k in KB for n in list(range(0, 41)) + [59, 60, 61, 100, 255, 256, 257, 770]]
t = [J("e_encode", k, n) for k in KB for n in list(range(0, 301)) + [1000, 3001]]
SPECS["B01"] = dict(harness=["base.c"], quick=q, thorough=t, reach=["encode"],
                    bounds="all five encoders; every byte string of every length 0..40, 59..61, 100, 255..257, 770 (thorough: 0..300, 1000, 3001); output buffer of exactly the text and its terminator",
                    outside="longer inputs (units are encoded one by one)")
q = [J("e_round", k, n) for k in KB for n in list(range(0, 17)) + [23, 31, 40, 100, 257]] + [J("e_decode_ref", k, n, 1) for k in KB for n in (0, 1, 2, 3, 4, 5, 6, 13)]
t = [J("e_round", k, n) for k in KB for n in list(range(0, 65)) + [100]] + [J("e_decode_ref", k, n, 1) for k in KB for n in range(0, 65)]
SPECS["B02"] = dict(harness=["base.c"], quick=q, thorough=t, reach=["round", "decode_ref"],
                    bounds="all five encodings; every byte string of every length 0..16, 23, 31, 40, 100, 257 (thorough: 0..64), encoded by the library, and by an independent encoder, then decoded by the library",
                    outside="longer byte strings")
q = [J("e_lenient", k, n) for k in KB for n in range(0, 5)] + [J("e_decode_ref", k, n, 0) for k in KB for n in range(0, 12)]
q += [J("e_holes", k, n, m, e) for k in KB for n, m, e in ((8, 0x1, 0), (9, 0x82, 1), (13, 0x1004, 3), (16, 0x8081, 0), (20, 0x421, 4), (24, 0x18, 8), (33, 0x100010001, 7))]
t = [J("e_lenient", k, n) for k in KB for n in range(0, 8)] + [J("e_decode_ref", k, n, 0) for k in KB for n in range(0, 40)]
t += [J("e_holes", k, n, m, e) for k in KB for n in range(6, 40) for m, e in ((1 << (n // 2) | 1, n % 9), (1 << (n - 1) | 6, 0), (0x11111 & ((1 << n) - 1), 2))]
SPECS["B03"] = dict(harness=["base.c"], quick=q, thorough=t, reach=["lenient", "decode_ref", "holes"],
                    bounds="all decoders; every text of 0..4 characters (thorough: 0..7) in which no alphabet character follows a '='; texts of 8..33 (thorough: 6..39) characters in which two or three characters are arbitrary and the others any alphabet characters, with 0..8 trailing '='; unpadded texts of every byte string up to 11 (39) bytes",
                    outside="alphabet characters after a '=' (memory safety only, B04); texts with more than 7 arbitrary characters that mix many separators")
q = [J("e_any", k, n) for k in KB for n in range(0, 10)] + [J("e_overpad", k, n, e, x) for k in KB for n, e, x in ((0, 1, 0), (0, 8, 0), (0, 40, 0), (1, 9, 2), (2, 2, 3), (5, 6, 3), (8, 8, 4), (9, 17, 1), (16, 1, 2), (300, 3, 1), (257, 300, 1))]
t = [J("e_any", k, n) for k in KB for n in range(0, 13)] + [J("e_overpad", k, n, e, x) for k in KB for n in range(0, 18) for e, x in ((1, 2), (4, 4), (9, 3))]
SPECS["B04"] = dict(harness=["base.c"], quick=q, thorough=t, reach=["any", "overpad"],
                    bounds="all decoders; every text of 0..9 characters (thorough: 0..12), and texts of up to 17 (and of 257 and 300) alphabet characters, up to 40 (and 300) '=' and up to 4 arbitrary characters; the text in a buffer ending at its terminator, the output in a buffer of ceil(length / chars per unit) * bytes per unit + 1 bytes",
                    outside="longer texts")

# ---------------------------------------------------------------- hex text, byte sequences
SUF = [(0, 0), (1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (2, 2)]
q = [J("u_hex", n) for n in list(range(0, 21)) + [32, 64, 255, 256, 300]] + [J("u_parse", n, p, s) for n in range(0, 7) for p, s in SUF] + [J("u_parse", n, 0, 0) for n in (16, 33, 260)] + [J("u_round", n) for n in (0, 1, 2, 7, 20, 32, 260)]
q += [J("u_print", n) for n in (0, 1, 2, 20, 64, 300)]
q += [J("u_from_hex", n, p, s, f) for n in (0, 1, 2, 5) for p, s in SUF for f in (0, 1)] + [J("u_from_hex", 20, 1, 0, 1)]
t = [J("u_hex", n) for n in range(0, 130)] + [J("u_parse", n, p, s) for n in range(0, 40) for p, s in SUF] + [J("u_round", n) for n in range(0, 66)] + [J("u_from_hex", n, p, s, f) for n in range(0, 34) for p, s in SUF for f in (0, 1)]
SPECS["U01"] = dict(harness=["util.c", "seq.cpp"], quick=q, thorough=t, reach=["hex", "print", "parse", "round", "from_hex"],
                    bounds="every byte string of 0..20, 32, 64, 255, 256, 300 bytes (thorough: 0..129) to text, of 0, 1, 2, 20, 64, 300 bytes printed; every text of 0..6, 16, 33, 260 bytes (thorough: 0..39) in every mix of letter case, with each prefix and suffix; C and C++ forms",
                    outside="longer texts; texts with separators (U02)")
HOLES = [(8, 0x3), (9, 0x101), (12, 0x840), (17, 0x10011), (24, 0x800006), (521, 0), (300, 0x8)]
q = [J("u_any", n) for n in range(0, 5)] + [J("u_from_any", n) for n in range(0, 4)] + [J("u_holes", n, m) for n, m in HOLES]
t = [J("u_any", n) for n in range(0, 7)] + [J("u_from_any", n) for n in range(0, 6)] + [J("u_holes", n, m) for n in range(5, 30) for m in (3, 1 << (n - 1) | 2, 1 << (n // 2) | 1, 3 << (n - 2))]
SPECS["U02"] = dict(harness=["util.c", "seq.cpp"], quick=q, thorough=t, reach=["any", "holes", "from_any"],
                    bounds="every text of 0..4 characters (thorough: 0..6) with all character values; texts of 8..24, 300 and 521 (thorough: 5..29) characters of which two or three, at chosen places, are arbitrary and the others any hex digits",
                    outside="longer texts with many separators")
q = [J("s_views", n, f) for n in (0, 1, 2, 5, 14, 15, 16, 17, 31, 300) for f in range(6)] + [J("s_copy", n, f) for n in (0, 1, 15, 16, 33) for f in range(4)]
q += [J("s_trim", n, f, i) for n in range(0, 7) for f in range(3) for i in (0, 1)] + [J("s_trim_long", a, n, b) for a, n, b in ((0, 0, 0), (0, 20, 0), (3, 17, 0), (0, 16, 4), (2, 9, 5), (20, 0, 0), (16, 1, 16), (260, 3, 2), (1, 2, 300))]
t = [J("s_views", n, f) for n in range(0, 66) for f in range(6)] + [J("s_copy", n, f) for n in range(0, 40) for f in range(4)] + [J("s_trim", n, f, i) for n in range(7, 18) for f in range(3) for i in (0, 1)]
t += [J("s_trim_long", a, n, b) for a in (0, 1, 15, 17) for n in (0, 1, 2, 15, 16, 33) for b in (0, 1, 14, 16)]
SPECS["S01"] = dict(harness=["seq.cpp"], quick=q, thorough=t, reach=["views", "copy", "trim", "trim_long"],
                    bounds="every content of 0..31 and 300 bytes at the small-string edges (thorough: 0..65) through each constructor and factory; copies and moves; trimming with zero bytes at every (symbolic) place for 0..6 bytes (thorough: 0..17), and up to 20 (and 260, 300) zeros on either side of up to 33 bytes; sources overwritten after construction",
                    outside="operator<< on streams; the other member functions of std::basic_string")

# ---------------------------------------------------------------- encoder objects, names
q, t = [], []
for a in ALLA:
    b, d = BLOCK[a], DIG[a]
    q += [J("s2_digest", a, n1, f1, n2, f2, 0) for n1, f1, n2, f2 in ((0, 0, 0, 1), (3, 0, 0, 2), (5, 1, 4, 2), (2, 2, b, 3), (b - 1, 3, 2, 0), (b, 0, b + 3, 1))]
    q += [J("s2_digest", a, 5, i % 4, 2, 0, bits) for i, bits in enumerate((1, 7, 8, 9, 64, 100, 8 * d - 8, 8 * d - 1, 8 * d, 8 * d + 1, 8 * d + 64, 8 * b, 8 * b + 8, 16 * b + 3, 4096))]
    q += [J("s2_reset", a, un, fin, n, bits) for un, fin, n, bits in ((0, 0, 3, 0), (b - 1, 0, 5, 16), (b + 3, 1, b, 0), (4, 1, 0, 33))]
    q += [J("s2_two", a, (a * 7 + 3) % 16, 9, b // 2), J("s2_two", a, a, b + 1, 3)]
    t += [J("s2_digest", a, 3, 0, 0, 2, bits) for bits in range(0, 8 * d + 20)] + [J("s2_digest", a, n, f, 1, (f + 1) % 4, 0) for n in range(0, b + 3, 3) for f in range(4)]
    t += [J("s2_reset", a, un, fin, n, bits) for un in range(0, b + 2, 5) for fin in (0, 1) for n in (0, b) for bits in (0, 24)] + [J("s2_two", a, c, 20, 30) for c in ALLA]
SPECS["S02"] = dict(harness=["enc.cpp"], quick=q, thorough=t, reach=["digest", "reset", "two"],
                    bounds="all 16 algorithms over any memory contents; every content of messages up to 2 blocks + 3 bytes in two updates of every form; requested sizes 0 (default), 1..4096 bits at byte, digest and rate edges (thorough: every size to the digest size + 20 bits); reset after abandoned and finished use; two encoders side by side",
                    outside="get_digest called twice without reset; longer messages (H01-H08)")
q, t = [], []
for a in FIXED:
    b = BLOCK[a]
    q += [J("m2_mac", a, kn, kf, n1, f1, n2) for kn, kf, n1, f1, n2 in ((0, 0, 3, 0, 2), (5, 1, 0, 1, 3), (7, 2, 4, 2, 0), (9, 3, 2, 3, 5), (b, 3, 5, 2, 1), (b + 1, 2, 1, 3, b), (b + 4, 0, b, 1, 2), (b + 2, 1, 2, 0, 2), (270, a % 4, 3, (a + 1) % 4, 1), (6, (a + 2) % 4, 260, a % 4, 3))]
    q += [J("m2_two", a, (a * 5 + 2) % 12, 11)]
    t += [J("m2_mac", a, kn, kf, n1, f1, 3) for kn in (1, b - 1, b, b + 1, 2 * b + 1) for kf in range(4) for n1 in (0, 3, b + 1) for f1 in range(4)] + [J("m2_two", a, c, 11) for c in FIXED]
SPECS["M02"] = dict(harness=["enc.cpp"], quick=q, thorough=t, reach=["mac", "two"],
                    bounds="all 12 algorithms over any memory contents; every key of 0..block+4 bytes (edges; thorough to 2 blocks + 1) in each of the four forms; keys of 270 bytes; every message of up to two blocks, and of 263 bytes, in two updates of different forms; two encoders side by side",
                    outside="longer keys and messages (M01)")
q = [J("a_names", a) for a in ALLA] + [J("a_any", n) for n in range(0, 14)]
t = [J("a_any", n) for n in range(14, 24)] + [J("a_near", a, c, p) for a in ALLA for c in (0, 1) for p in range(0, 12)]
SPECS["A01"] = dict(harness=["enc.cpp"], quick=q, thorough=t, reach=["names", "any"], assumptions=["std::hash of strings is replaced by another hash function (unordered containers must not depend on it)"],
                    bounds="all 32 documented names in every form, all size tables, constants and encoder objects; every text of 0..13 characters (thorough: 0..23)",
                    outside="longer names (longer than every documented name)")

# ---------------------------------------------------------------- one-time passwords
HMACSTUB = ["where the library calls pgfe_hmac, the MAC is any bytes of the right length (arguments are checked); what pgfe_hmac returns is decided by M01"]
q = [J("o_digits", a) for a in FIXED] + [J("o_hotp", a, kn, d, 1) for a in FIXED for kn, d in ((0, 6), (20, 8), (65, 4), (80, 9), (300, 7))] + [J("o_hotp", 1, kn, d, 0) for kn, d in ((0, 6), (20, 8), (64, 6), (70, 10))] + [J("o_hotp", a, 10, 6, 0) for a in (8, 11)]
t = [J("o_hotp", a, kn, d, 1) for a in FIXED for kn in (1, 5, 32, 64) for d in range(0, 12)] + [J("o_hotp", 1, kn, d, 0) for kn in range(0, 72, 3) for d in (6, 10)] + [J("o_hotp", a, 10, 6, 0) for a in (9, 10)]
SPECS["O01"] = dict(harness=["otp.cpp"], quick=q, thorough=t, reach=["hotp", "digits"], assumptions=HMACSTUB,
                    bounds="all 12 algorithms, every MAC value, every 64-bit counter, every digit count 0..255, every secret content of 0..300 bytes (0, 20, 65, 80, 300; thorough more); SHA-1 (all secret edges), SHA3-224 and SHA3-512 also with the real HMAC",
                    outside="secrets of other lengths above 80 bytes (M01 covers long HMAC keys); for MD5 codes whose truncation window would leave the 16-byte MAC (RFC 4226 defines none) only range and memory safety are checked")
IV = [1, 7, 30, 60, 64, 3600, 2147483647]
q = [J("o_totp", a, 10, 6, iv, 1) for a in FIXED for iv in (0, 30)] + [J("o_totp", 1, 10, d, 0, 1) for d in (4, 8, 9, 10)] + [J("o_totp_short", 10, f, iv, 1) for f in (4, 6, 7, 8, 10) for iv in (0, 30)] + [J("o_left", iv, 32) for iv in IV] + [J("o_totp", 1, 10, 6, 30, 0)]
t = [J("o_totp", a, kn, d, iv, 1) for a in FIXED for kn in (0, 65) for d in (1, 5, 9) for iv in IV] + [J("o_left", iv, 32) for iv in range(2, 300)]
SPECS["O02"] = dict(harness=["otp.cpp"], quick=q, thorough=t, reach=["totp", "totp_short", "left"], assumptions=HMACSTUB,
                    bounds="every clock value 0..2^62, every initial time from -2^62 up to it, every interval 1..2^31-1 at once; the moment the code changes for 7 (thorough: 300) intervals with 2^32 steps",
                    outside="intervals above 2^31-1 (the time left does not fit its type), clocks before the initial time or before 1970")
q = [J("o_totp_obj", 1, c, i1, i2, ops, 6) for c, i1, i2, ops in ((0, 30, 60, 77), (0, 30, 60, 777), (1, 30, 60, 7173), (2, 30, 45, 727), (3, 1, 60, 4747), (4, 60, 30, 1717), (0, 30, 7, 5757), (1, 30, 31, 27), (2, 45, 30, 3747), (0, 30, 64, 6717), (3, 30, 60, 1357))]
q += [J("o_totp_obj", a, a % 5, 30, 60, 727, 6) for a in FIXED[2:]] + [J("o_totp_obj", 0, 0, 30, 60, 77, 3), J("o_totp_obj", 1, 0, 2147483647, 30, 717, 6)]
t = [J("o_totp_obj", 1, (a * 7 + b) % 5, 30, (31, 60, 7, 1)[b % 4], 7000 + a * 100 + b * 10 + c, 6) for a in range(1, 8) for b in range(1, 8) for c in (7, 4, 6)] + [J("o_totp_obj", 1, 0, 30, 60, 77777, 4)]
SPECS["O03"] = dict(harness=["otp.cpp"], quick=q, thorough=t, reach=["totp_obj"], assumptions=HMACSTUB,
                    bounds="all 12 algorithms, all constructors over any memory contents; histories of 2..4 (thorough: up to 5) generate calls with changes of interval, initial time, secret, digit count and form before each; the clock advances before each call to any second of any of 64 time steps not before it, and within the step before the time left is asked again",
                    outside="clocks that go back; generate through a reference to the const base class (AbstractOTP), which cannot update the counter; more than 64 steps between calls")
q = [J("o_obj", a, a % 6, 5, f, 7, 1) for a in FIXED for f in (a % 8, (a + 3) % 8)] + [J("o_obj", 1, c, kn, f, kn2, 1) for c, kn, f, kn2 in ((0, 0, 0, 3), (0, 20, 1, 16), (2, 16, 2, 0), (3, 15, 3, 33), (1, 9, 4, 10), (4, 3, 5, 20), (5, 11, 6, 1), (5, 0, 7, 5), (2, 64, 0, 70), (3, 260, 0, 300), (0, 2, 4, 260))] + [J("o_obj", 1, f % 6, kn, f, kn, 1) for f in range(8) for kn in (2, 9)] + [J("o_obj", a, 0, 3, a % 8, 3, 1) for a in FIXED] + [J("o_obj", 1, 0, 5, 4, 7, 0)]
t = [J("o_obj", 1, c, kn, f, kn2, 1) for c in range(6) for f in range(8) for kn, kn2 in ((1, 40), (17, 2), (33, 15), (20, 20), (5, 5))]
SPECS["O04"] = dict(harness=["otp.cpp"], quick=q, thorough=t, reach=["obj"], assumptions=HMACSTUB,
                    bounds="all 12 algorithms; all six ways of construction over any memory contents, all eight ways of setting a secret; every secret content of 0..70, 260, 300 bytes (edges), also followed by any other secret of the same length; every counter; sources overwritten after use",
                    outside="longer secrets; base32 texts with separators or lower case (B03)")
q = [J("o_str", d, 0) for d in range(1, 11)] + [J("o_str", d, w) for d in (1, 4, 6, 8) for w in (1, 2)]
t = [J("o_str", d, w) for d in range(1, 11) for w in (1, 2)]
SPECS["O05"] = dict(harness=["otp.cpp"], quick=q, thorough=t, reach=["str"], assumptions=HMACSTUB,
                    bounds="every code value (any MAC) for each digit count 1..10; HOTP, TOTP and AbstractOTP reference", outside="")

# ---------------------------------------------------------------- Blowfish
SPECS["F01"] = dict(harness=["fish.cpp"], quick=[J("f_unit", m) for m in range(4)], thorough=[], reach=["unit"],
                    bounds="every content of the 18 subkeys and the four S-boxes, every 64-bit block", outside="")
q = [J("f_buf", n, d, 0) for n in list(range(0, 34)) + [64, 260] for d in (0, 1)] + [J("f_buf", n, d, 1) for n in (8, 16, 24) for d in (0, 1)] + [J("f_roundtrip", n, f) for n in range(0, 26) for f in (0, 1)]
t = [J("f_buf", n, d, 0) for n in (63, 64, 65, 127, 200, 257, 300, 1001) for d in (0, 1)] + [J("f_roundtrip", n, f) for n in (40, 63, 65, 256, 300) for f in (0, 1)]
SPECS["F02"] = dict(harness=["fish.cpp"], quick=q, thorough=t, reach=["buf", "roundtrip"],
                    bounds="every content of buffers of 0..33, 64, 260 bytes (thorough: to 1001), every expanded key; output buffers of exactly the padded length; output over the input for whole groups",
                    outside="longer buffers; overlapping buffers other than exactly in place")
q = [J("f_init", n) for n in (1, 2, 3, 4, 5, 7, 8, 16, 31, 55, 56, 57, 71, 72, 73, 300)]
t = [J("f_init", n) for n in range(1, 81)] + [J("f_init", n) for n in (255, 256, 257, 65535, 65536, 65537, 70000)] + [J("f_again", a, b) for a, b in ((3, 9), (56, 1))]
SPECS["F03"] = dict(harness=["fish.cpp"], quick=q, thorough=t, reach=["init"],
                    bounds="every key content at 16 lengths from 1 to 300 bytes (thorough: 1..80 and edges to 70000); all 1042 words of the result; contexts over any memory contents",
                    outside="empty keys (Blowfish defines none)")
q = [J("f_obj", kn, kf, n1, f1, n2, f2) for kn, kf, n1, f1, n2, f2 in ((5, 0, 9, 0, 8, 2), (7, 1, 3, 1, 16, 3), (9, 2, 8, 2, 5, 1), (4, 3, 0, 3, 0, 0), (57, 2, 17, 0, 1, 0), (3, 3, 23, 2, 24, 0), (1, 1, 7, 3, 9, 2), (16, 2, 1, 1, 15, 3), (2, 0, 260, 2, 263, 1))]
t = [J("f_obj", kn, kf, n1, f1, n2, f2) for kf in range(4) for f1 in range(4) for f2 in range(4) for kn, n1, n2 in ((16, 33, 40),)] + [J("f_obj", 72, kf, 15, 0, 17, 0) for kf in range(4)]
SPECS["F04"] = dict(harness=["fish.cpp"], quick=q, thorough=t, reach=["obj"],
                    bounds="every key content of 1..57 bytes (thorough: 72) in each of the four forms, every data content of 0..24 and 260 bytes (thorough: 40) in each of the four forms, encryption, decryption, decryption of the encryption, and calls through the base class; objects over any memory contents",
                    outside="longer keys and data (F02, F03)")

# ---------------------------------------------------------------- base codec objects
# sizes around the first cached buffers (128 characters, 64 bytes) and around a buffer grown by the call before
def _en(bits, room):  # largest n whose buffer estimate stays below room
    n = 0
    while math.ceil((n + 1) * (8 / bits) * 1.2) < room: n += 1
    return n
BB = [4, 5, 5, 6, 6]
q, t = [], []
for k in KB:
    e = _en(BB[k], 127)
    d = next(n for n in range(200) if math.ceil((n + 2) * 1.2) > 64)
    for fa, na, fb, nb, fc, nc in ((0, e, 1, e + 1, 2, e), (3, 3, 0, e + 2, 1, e + 9), (2, e + 30, 3, e + 3, 0, 0), (1, e + 12, 0, e + 12, 3, e + 13), (0, 0, 2, 1, 3, 2),
                                   (4, d - 1, 5, d, 4, d + 1), (5, 3, 4, d + 2, 5, d + 10), (4, d + 30, 5, d + 3, 4, 0), (5, d + 12, 5, d + 12, 4, d + 13), (4, 1, 4, 2, 5, 3),
                                   (0, 7, 4, 7, 1, 9), (5, d + 5, 2, e + 5, 4, 6), (3, e + 6, 5, 2, 6, 2), (6, 3, 4, 5, 7, 1), (4, 20, 7, 2, 0, 4)):
        q.append(J("b5_seq", k, fa, na, fb, nb, fc, nc))
    q += [J("b5_two", k, j, f, 10 + f, 12) for j in KB for f in range(4)]
    t += [J("b5_seq", k, f, e + x, (f + 1) % 4, e + y, (f + 2) % 4, e + z) for f in range(4) for x in (-2, 0, 1, 40) for y in (-1, 1, 2, 41) for z in (-40, 0, 3, 80)]
    t += [J("b5_seq", k, 4 + f, d + x, 5 - f, d + y, 4 + f, d + z) for f in range(2) for x in range(-3, 4) for y in (-1, 1, 2, 41) for z in (-40, 0, 3, 60)]
    t += [J("b5_seq", k, 6, n, f, 30, 7, 1) for n in range(0, 6) for f in range(6)]
    t += [J("b5_seq", k, 0, n, 4, n, 1, n) for n in list(range(0, 150)) + [300]]
SPECS["B05"] = dict(harness=["baseobj.cpp"], quick=q, thorough=t, reach=["seq", "two"],
                    bounds="all codecs in every mode, built over any memory contents; three calls of every form on one object with every content: encoding lengths 0..3 and around the first buffer (51..106 bytes, growing and shrinking; thorough also to 300), decoding the text of 0..85 bytes around the first buffer (thorough also to 300), decoding any text of up to 3 (thorough: 5) characters between other calls; two objects side by side",
                    outside="more than three calls; decoding longer arbitrary texts (B03, B04 for the functions called)")

# ---------------------------------------------------------------- B06
q, t = [], []
for k in range(5):
    # encode/encode, decode/decode, encode/decode: small, growing the shared buffer in either thread, two calls in one thread
    for fa, na, fb, nb, fc, nc in ((0, 3, -1, 0, 0, 5), (0, 70, -1, 0, 3, 5), (2, 5, 0, 70, 1, 9), (1, 80, 3, 4, 0, 120),
                                   (4, 3, -1, 0, 4, 6), (4, 70, -1, 0, 5, 5), (5, 6, 4, 70, 4, 9), (4, 80, 5, 4, 4, 120),
                                   (0, 6, -1, 0, 4, 6), (0, 0, 2, 3, 3, 0), (4, 0, 5, 3, 4, 0), (0, 0, 4, 0, 4, 3), (4, 5, 0, 70, 0, 9), (0, 70, 4, 80, 5, 6), (0, 4, 5, 0, 4, 80)):
        q.append(J("b6_two", k, fa, na, fb, nb, fc, nc))
    for fa, na, fb, nb, fc, nc in ((0, 3, 2, 70, 3, 120), (4, 3, 5, 70, 4, 120), (0, 70, 4, 5, 0, 5)):
        (q if k in (1, 4) else t).append(J("b6_three", k, fa, na, fb, nb, fc, nc))
    for n in (1, 2, 7, 51, 53, 54, 64, 85, 86, 150, 300):
        t += [J("b6_two", k, n % 4, n, (n + 1) % 4, 60, (n + 2) % 4, 90), J("b6_two", k, 4, n, 5, 60, 4 + n % 2, 90), J("b6_two", k, 0, n, 4, n, 4, n)]
        t += [J("b6_three", k, n % 4, n, 4, n, 0, 60)]
SPECS["B06"] = dict(harness=["baseobj.cpp"], quick=q, thorough=t, reach=["two threads", "three threads"],
                    bounds="two threads (one making two calls, the other one) and three threads (one call each) on one object: every codec and mode, every call form, every content, lengths 0..120 (thorough: 300) on either side of the buffer sizes. Every schedule: a symbolic choice of the next thread at every lock, unlock and thread end, and a vector-clock race check of every access, so that code between lock operations may run in any order. Deadlock: some schedule leaves no thread able to run",
                    outside="more threads or calls; construction and destruction concurrent with calls; preemption inside atomics-based synchronisation other than mutexes and rwlocks",
                    assumptions=["std::mutex is glibc's pthread_mutex_t interface; rt/sched.h stands for it"])

# ---------------------------------------------------------------- T01
q, t = [], []
for a in range(12):
    for b in range(a, 12):
        v = (a + b) % 2
        q.append(J("t_pair", a, v, b, 1 - v if a == b else v + (2 if b == 4 else 0), -1, 1000000 + 31 * b))
        for x, y in ((0, 0), (1, 1), (0, 3), (3, 2), (2, 5)):
            t.append(J("t_pair", a, x, b, y, -1, 59))
for a in (0, 2, 5, 6, 8, 9, 11):
    t.append(J("t_pair", a, 0, a, 1, a, 1234567890))
SPECS["T01"] = dict(harness=["threads.cpp"], quick=q, thorough=t, reach=["threads"],
                    bounds="every pair (thorough: more variants, and three threads) of 12 operation families (C hashes; one-shot, multiple and string forms; HMAC; base codecs; codec objects; Blowfish functions and objects; hash encoders; HMAC encoders; HOTP and TOTP functions; HOTP and TOTP objects; byte sequences, helpers and name lookup), each thread running all operations of its family on its own objects and reading shared ones; every content of the inputs, short fixed lengths; Blowfish keys fixed; race check by vector clocks, so one schedule stands for all that have no lock operations between",
                    outside="other lengths (storage reached only by longer inputs); printing; stream input; construction during static initialisation; the C library's own thread safety",
                    assumptions=["rt/sched.h stands for mutexes and threads"])
