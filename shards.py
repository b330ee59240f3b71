"""Which harness runs, with which bounds, decide which property.

A shard is one symbolic execution: everything its parameters do not fix is a
symbolic input. Parameters are listed at the harness (harness/src/*.rs)."""

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, PINGRESP, DISCONNECT, AUTH = range(1, 16)
WILL = 16
TYPES = list(range(1, 16))
VERS = (3, 4, 5)
FID, SYNC, REENC = 1, 2, 4
STRICT, ROUND = 1, 2
CRASH = {15: 1}  # no comparisons: crashes and termination only
CRASH_KINDS = ("panic", "ub", "nontermination")


class S:
    def __init__(self, fn, *p, x=None, timeout=None, max_instrs=4_000_000, kinds=None, witness=400, dump=150):
        self.fn = "harness_" + fn
        p = list(p)
        for i, v in (x or {}).items():
            p += [0] * (i + 1 - len(p))
            p[i] = v
        self.pstr = ",".join(str(v) for v in p)
        self.timeout = timeout or 90
        self.max_instrs, self.kinds, self.witness, self.dump = max_instrs, kinds, witness, dump


def big(k, m, b, n):
    """string lengths cycle from k up to m, string number b is n bytes long"""
    return [k, m, b, n]


def span(lo, n):
    """every one of n values from lo (a forked choice)"""
    return n << 40 | lo


ASSUMPTIONS = [
    "The LLVM IR that rustc 1.99.1 emits at opt-level 2 with overflow checks means what the machine code does; counterexamples and sampled witnesses are run on separately compiled native code (dev and release profiles).",
    "The hash function of HashMap is replaced by a constant, so map iteration order is one fixed order per insertion history; core::str::from_utf8 and format! are replaced by models (exact UTF-8 grammar; error texts are empty).",
    "Memory allocation does not fail; 64-bit usize.",
    "z3 4.8.12 answers correctly (a sample of its queries is cross-checked with cvc5 and z3-new on every run).",
]

BOUNDS = {
    "frame": "one packet of the given type: every body of exactly p2 bytes, every protocol version byte (p1=0) or the given one, flags free where p4=1",
    "connect": "CONNECT with fixed name and version byte: every connect flags byte, keep alive, p2 property bytes and p3 following bytes",
    "props": "property section of p1 properties, each any allowed identifier (p2=1: one foreign), every value; string lengths from p4..p7; p8=1: p1 arbitrary bytes",
    "allprops": "every allowed property of the target once (p8: a prefix, p9: a subset), every value, order rotated by p1 / reversed by p2",
    "wire": "structured body with p2 entries or payload bytes, every value, option presence forked (p8=0) or fixed, p9 trailing bytes, p10 user properties",
    "stream": "every byte stream of exactly p0 bytes through the documented loop",
    "pair": "two arbitrary bodies of p2 and p3 bytes back to back, then PINGREQ",
    "cut": "every valid packet of the shape, cut at every byte position",
    "short": "every announced length up to 268435455 with only p2 bytes following",
    "header": "every first byte, remaining length written with p0 bytes, every body of p2 bytes",
    "chunk": "every delivery pattern of 1, 2 or all bytes and interrupts for the first p4 reads",
    "fault": "every valid packet of the shape with the transport failing at every byte position",
    "seq": "the given sequence of packets through the documented loop, those of mask p2 with every content, p3 what is malformed in each",
    "many": "p1 user properties and p4 subscription identifiers in one section, first and last symbolic",
    "ser": "every valid packet value of the shape (p1=0: every value of the Rust type) through format p9 and back",
    "serpart": "every value of the part",
    "huge": "packets whose length is around 268435455 and around 4 GiB (contents zero)",
    "direct": "every valid packet value of the shape through the Packet trait",
    "hist": "every valid packet value of type p1 >> 8 after p2 packets of type p0 were encoded and decoded",
    "later": "packet of every content after p3 small packets, some malformed, and a PUBLISH of p2 bytes",
    "split": "packet of every content delivered in pieces of p2 and p3 bytes (p11: interrupted, failing or ending there)",
    "keys": "three pairs with names of p1 bytes that may differ in one place, p2 from the end",
    "eq": "two packets (p0, p1) with independent contents, option presence p8 and p9; p10=1 any value of the type",
    "eqcode": "every pair of codes or headers",
    "session": "CONNECT followed by two packets of the given types, contents symbolic",
    "twice": "two or three packets one after the other with all, none or a mask of the allowed properties and strings of different lengths, contents symbolic; on one decoder or one each",
    "enc": "every valid packet value of the type with p2 entries, user properties of shape p3, string lengths p4..p7, presence forked (p8=0) or fixed",
    "any": "every value of the Rust type, valid or not, with p2 entries",
    "iso": "every valid MQTT 5 packet value encoded for every version below 5",
    "long": "one string of p7 bytes, the other parts as enc",
    "varint": "every 32-bit value", "varread": "every input of p0 bytes", "codes": "every byte", "fixed": "every byte", "flags": "every byte",
    "make": "every packet identifier and property content of the constructors", "prim": "p0 primitives in any order, every value",
    "propio": "every value of the property", "limits": "every sequence of p0 operations on a stream of p1 bytes, nesting up to p2",
}


def bounds(spec):
    out = {}
    for s in spec:
        n = s.fn[8:]
        b = out.setdefault(n, dict(meaning=BOUNDS[n], shards=0, parameters=[], instruction_limit_per_path=0))
        b["shards"] += 1
        b["parameters"].append(s.pstr)
        b["instruction_limit_per_path"] = max(b["instruction_limit_per_path"], s.max_instrs)
    return out


NEED = {
    "frame": (1, 2), "connect": (1, 2), "props": (1,), "allprops": (1,), "wire": (1,), "stream": (1, 2, 3, 4), "pair": (0, 3), "cut": (1,), "short": (1,),
    "seq": (1, 2), "twice": (1,), "many": (1,), "later": (1, 2), "hist": (1,), "keys": (1, 2), "split": (1, 2), "huge": (1, 2), "direct": (1,), "ser": (1,), "serpart": (1, 2), "header": (1, 2), "chunk": (2,), "fault": (1, 2), "session": (1,), "enc": (1,), "any": (1, 2), "long": (), "varint": (1, 2, 3, 4),
    "varread": (1, 2), "codes": (1,), "fixed": (1, 2), "flags": (1, 2), "make": (1,), "eq": (1, 2), "eqcode": (1, 2), "prim": (1,), "propio": (1,), "limits": (1, 2, 3, 4),
}


def need(spec):
    """outcomes that must be reached (else the run is vacuous)"""
    out = {}
    for s in spec:
        n = s.fn[8:]
        if s.pstr.endswith(",1") and s.pstr.count(",") == 15:
            continue  # crash-only shards compare nothing
        if n == "frame" and all(t.pstr.startswith("1,") for t in spec if t.fn == s.fn):
            continue  # a CONNECT is longer than that
        if n in ("frame", "pair", "any", "stream", "limits", "varint", "header") and len([1 for t in spec if t.fn == s.fn]) < 8:
            continue
        if n in NEED:
            out[s.fn] = NEED[n]
    return out


# ------------------------------------------------------------------ building blocks

def frames(types, vers, lens, mode, free=0, **kw):
    return [S("frame", k, v, n, mode, free, **kw) for k in types for v in vers for n in lens]


def bodies(k, q):
    """arbitrary body lengths worth exploring for a packet type"""
    deep = {1: 7, 2: 9, 3: 8, 8: 9, 9: 8, 10: 9, 11: 8, 12: 3, 13: 3, 14: 9, 15: 9}.get(k, 9)
    return list(range(0, deep + (0 if q else 2)))


def arbitrary(types, mode, q, vers=(5, 4), free=0, **kw):
    out = []
    for k in types:
        for v in vers:
            out += frames([k], [v], bodies(k, q), mode, free, **kw)
    return out


def connects(mode, q, vers=(3, 4, 5), **kw):
    out = []
    for v in vers:
        for m in range(0, 9):
            out.append(S("connect", v, 2 + m, 0, 6, mode, 2, **kw))
        for name in (0, 1):
            for n in ([0, 2, 5, 6, 8, 9] if q else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]):
                out.append(S("connect", v, name, 0, n, mode, **kw))
    if 5 in vers:
        for np in ([1, 3, 5] if q else [1, 2, 3, 4, 5, 6, 7]):
            out.append(S("connect", 5, 0, np, 4, mode, **kw))
        # will flag set, its properties arbitrary
        for n in ([6, 8, 10] if q else [6, 7, 8, 9, 10, 11, 12]):
            out.append(S("connect", 5, 0, 0, n, mode, 6, **kw))
    for v in (0, 1, 2, 6, 0x83, 0x84, 0x85, 255):
        out.append(S("connect", v, 0, 0, 3, mode, **kw))
    for n in (0, 2, 3, 5):
        for name in (0, 1):
            out.append(S("connect", 256, name, 0, n, mode, **kw))
    return out


PROP_TARGETS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, WILL)


def propsets(targets, mode, q, foreign=True, **kw):
    out = []
    for k in targets:
        for m in ([1, 2] if q else [1, 2, 3]):
            for (a, b) in ([(1, 2)] if q or m == 3 else [(0, 2), (1, 3)]):
                out.append(S("props", k, m, 0, mode, *big(a, b, 0, 0), **kw))
        if foreign:
            for m in ([1, 2] if q else [1, 2]):
                out.append(S("props", k, m, 1, mode, *big(1, 2, 0, 0), **kw))
        for n in ([0, 3, 5] if q else [0, 1, 2, 3, 4, 5, 6, 7]):
            out.append(S("props", k, n, 0, mode, *big(1, 2, 0, 0), 1, **kw))
    return out


def alls(targets, mode, q, **kw):
    out = []
    for k in targets:
        for (rot, rev) in ([(0, 0), (2, 1)] if q else [(0, 0), (0, 1), (1, 0), (2, 1), (3, 0), (5, 1), (7, 0)]):
            out.append(S("allprops", k, rot, rev, mode, *big(1, 3, 0, 0), **kw))
    return out


def entries(k, q):
    if k in (8, 9, 10, 11):
        return [1, 2, 3] if q else [1, 2, 3, 4, 5]
    if k == 3:
        return [0, 1, 3] if q else [0, 1, 2, 3, 6]
    return [0]


def wires(types, mode, q, vers=VERS, **kw):
    out = []
    for k in types:
        if k in (12, 13):
            continue
        for v in vers:
            if k == 15 and v != 5:
                continue
            for n in entries(k, q):
                out.append(S("wire", k, v, n, mode, *big(1, 2, 0, 0), 0, 0, 0, **kw))
            n = entries(k, q)[-1] if k != 3 else 1
            out.append(S("wire", k, v, n, mode, *big(2, 4, 0, 0), 1, 0, 1 if v == 5 else 0, **kw))
            out.append(S("wire", k, v, 1, mode, *big(0, 2, 0, 0), 0, 2, 0, **kw))
            for (a, b) in ((0, 0), (0, 1), (1, 1)):
                out.append(S("wire", k, v, 1, mode, *big(a, b, 0, 0), 1, 0, 1 if v == 5 else 0, **kw))
            if v == 5:
                out.append(S("wire", k, v, 1, mode, *big(1, 2, 0, 0), 1 if k == 1 else 0, 0, 2, **kw))
    return out


# sizes around the places where something changes: one/two/three/four length
# bytes, the reader's 8 KiB buffer, the 64 KiB read chunk
SIZES = (126, 127, 128, 129, 254, 255, 256, 8189, 8192, 8193, 16381, 16383, 16384, 16386, 65533, 65534, 65535)
QSIZES = (127, 128, 255, 256, 8192, 16383, 16384, 65535)


def sized_wires(types, mode, q, vers=VERS, **kw):
    """one long string in each packet type"""
    out = []
    kw.setdefault("max_instrs", 60_000_000)
    for k in types:
        if k in (2, 9, 11, 12, 13):
            continue
        for v in vers:
            if (k in (4, 5, 6, 7, 14, 15) and v != 5):
                continue
            for n in (QSIZES if q else SIZES):
                up = 1 if k in (4, 5, 6, 7, 14, 15) else 0
                idx = {1: (1, 2, 3, 4, 5), 3: (1,), 8: (1,), 10: (1,)}.get(k, (2,))
                idx = idx if not q else idx[(n + v) % len(idx):][:1]
                for i in idx:
                    out.append(S("wire", k, v, 1, mode, *big(1, 2, i, n), 1, 0, up, **kw))
    return out


# strings long enough to look inside: every byte symbolic
STRS = {1: (1, 2, 3, 4, 5), 3: (1, 2), 8: (1, 2), 10: (1, 2), 4: (2, 3), 5: (2, 3), 6: (2, 3), 7: (2, 3), 2: (1, 2), 9: (1, 2), 11: (1, 2), 14: (1, 2), 15: (1, 2)}


def str_wires(types, mode, q, vers=VERS, lens=None, **kw):
    out = []
    for k in types:
        for v in vers:
            if k not in STRS or (k not in (1, 3, 8, 10) and v != 5):
                continue
            for i in STRS[k]:
                for n in lens or ((span(0, 33),) if q else (span(0, 33), span(33, 16))):
                    up = 1 if k in (2, 4, 5, 6, 7, 9, 11, 14, 15) else 0
                    out.append(S("wire", k, v, 1, mode, *big(1, 2, i, n), 1, 0, up, **kw))
    return out


def str_encs(types, mode, q, vers=VERS, **kw):
    out = []
    for k in types:
        if k in (12, 13):
            continue
        for v in vers:
            if (k == 15 or k not in (1, 3, 8, 10)) and v != 5:
                continue
            idx = {1: range(1, 13), 2: range(1, 10), 3: range(1, 8), 14: range(1, 5), 15: range(1, 6)}.get(k, range(1, 4))
            for i in idx:
                for n in (span(0, 33),):
                    out.append(S("enc", k, v, 1, 1, *big(1, 2, i, n), 1, mode, **kw))
    return out


ASCII = 1 << 39
TWO = 1 << 38


def ascii_lens(q):
    """lengths of strings all of whose bytes are arbitrary ASCII, or which repeat two arbitrary characters"""
    if q:
        return (span(ASCII + 126, 4), span(ASCII + 254, 4), span(TWO + 252, 8), span(TWO + 508, 8))
    return (span(ASCII + 33, 80), span(ASCII + 113, 80), span(ASCII + 193, 80), span(TWO + 33, 240), span(TWO + 508, 8), TWO + 1100, TWO + 65535)


def edge_wires(types, mode, q, vers=VERS, **kw):
    """every string length from 33 to past 256 and around 16384"""
    out = []
    kw.setdefault("max_instrs", 60_000_000)
    for k in types:
        for v in vers:
            if k not in STRS or (k not in (1, 3, 8, 10) and v != 5):
                continue
            for i in STRS[k]:
                up = 1 if k not in (1, 3, 8, 10) or v == 5 else 0
                out.append(S("wire", k, v, 1, mode, *big(1, 2, i, span(33, 240)), 1, 0, up, **kw))
                for n in ascii_lens(q):
                    out.append(S("wire", k, v, 1, mode, *big(1, 2, i, n), 1, 0, up, **kw))
                if not q:
                    out.append(S("wire", k, v, 1, mode, *big(1, 2, i, span(16320, 70)), 1, 0, up, timeout=200, **kw))
    return out


def edge_encs(types, mode, q, vers=VERS, **kw):
    out = []
    kw.setdefault("max_instrs", 60_000_000)
    for k in types:
        if k in (12, 13):
            continue
        for v in vers:
            if (k == 15 or k not in (1, 3, 8, 10)) and v != 5:
                continue
            idx = {1: range(1, 13), 2: range(1, 10), 3: range(1, 8), 14: range(1, 5), 15: range(1, 6)}.get(k, range(1, 4))
            for i in idx:
                out.append(S("enc", k, v, 1, 1, *big(1, 2, i, span(33, 240)), 1, mode, **kw))
                for n in ascii_lens(q):
                    out.append(S("enc", k, v, 1, 1, *big(1, 2, i, n), 1, mode, **kw))
                for a in range(16290, 16390, 20) if k in (3, 8) else (16290,):
                    if not q or i == 1 and k not in (3, 8):
                        out.append(S("enc", k, v, 1, 1, *big(1, 2, i, span(a, 20 if k in (3, 8) else 100)), 1, mode, timeout=200, **kw))
    return out


def sized_payloads(mode, q, **kw):
    kw.setdefault("max_instrs", 400_000_000)
    ns = [span(0, 300), span(8170, 30), span(16365, 30), 65520, 65530, 65536, 70000, 131072, 140000]
    if not q:
        ns += [span(300, 300), span(65500, 60), 1 << 18, 1 << 20, span(2097130, 20), 2097152]
    return [S("wire", 3, v, n, mode, *big(1, 2, 0, 0), 2, 0, 0, timeout=200, **kw) for v in ((4, 5) if q else VERS) for n in ns]


def long_lists(mode, q, types=(8, 9, 10, 11), vers=VERS, **kw):
    kw.setdefault("max_instrs", 200_000_000)
    out = []
    for k in types:
        for v in vers:
            ns = (span(1, 135), 257, 1000) if q else (span(1, 200), span(250, 10), 1000, 5000)
            if k == 10 and v == 5 or k in (9, 11) or not q:
                ns += (66000,)
            elif q:
                ns += (9000,)
            for n in ns:
                out.append(S("wire", k, v, n, mode, *big(1, 2, 0, 0), 1, 0, 1 if v == 5 else 0, timeout=200, **kw))
    return out


def encs(types, mode, q, vers=VERS, shapes=None, **kw):
    out = []
    for k in types:
        for v in vers:
            if k == 15 and v != 5:
                continue
            ns = entries(k, q) if k in (8, 9, 10, 11) else [0]
            if k in (9, 11):
                ns = ns[:2] if q else ns[:3]
            if k == 1:
                pat = patterns(24, q)
                for i, sh in enumerate(shapes or (range(7) if v == 5 else (0,))):
                    for (a, b) in ((0, 0), (0, 1), (1, 1)):
                        out.append(S("enc", k, v, 0, sh, *big(a, b, 0, 0), 1, mode, **kw))
                    for (a, b) in ((1, 2), (0, 3)):
                        for m in pat[i % 3::3] if sh not in (1, 2) or v != 5 else [0]:
                            out.append(S("enc", k, v, 0, sh, *big(a, b, 0, 0), m, mode, **kw))
                continue
            for n in ns:
                for sh in (shapes or (range(7) if v == 5 else (1,))):
                    if k == 2 and v == 5 and sh not in (0, 1):
                        for m in patterns(12, q):
                            out.append(S("enc", k, v, n, sh, *big(1, 2, 0, 0), m, mode, **kw))
                        continue
                    out.append(S("enc", k, v, n, sh, *big(1, 2, 0, 0), 0 if n < 3 else 1, mode, **kw))
            for (a, b) in ((0, 0), (0, 1), (1, 1)):
                # strings all empty, every other one empty
                out.append(S("enc", k, v, 1, 1, *big(a, b, 0, 0), 1, mode, **kw))
            if v == 5 or k in (3, 8, 10):
                out.append(S("enc", k, v, 1, 2, *big(0, 4, 0, 0), 0 if k not in (2,) else 1, mode, **kw))
    return out


def patterns(n, q):
    """presence patterns: all, none, each single, each single missing"""
    out = [1, 2]
    m = min(n, 8 if q else 16)
    for i in range(m):
        out.append((1 << (2 + i)) | 3)
        out.append((((1 << 32) - 1) ^ (1 << i)) << 2 | 3)
    return out + masks(6 if q else 40, 30)


def masks(n, bits):
    """pseudo-random presence patterns, each pattern and its complement"""
    out = []
    x = 12345
    for _ in range(n // 2):
        x = (x * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        m = x >> 24 & (1 << bits) - 1
        out += [m << 2 | 3, (m ^ (1 << bits) - 1) << 2 | 3]
    return out


def subsets(targets, mode, q, **kw):
    """sections with pseudo-random halves of the allowed properties"""
    out = []
    for k in targets:
        for i, m in enumerate(masks(16 if q else 160, 20)):
            out.append(S("allprops", k, i % 3, i // 2 % 2, mode, *big(1, 2, 0, 0), 0, m >> 2, **kw))
    return out


def keys(targets, mode, q, **kw):
    out = []
    for k in targets:
        out.append(S("keys", k, span(2, 24), span(0, 3), mode, **kw))
        if not q or k in (3, 4, 14):
            out.append(S("keys", k, span(62, 5), span(0, 67), mode, **kw))
            out.append(S("keys", k, 300, span(0, 300), mode, **kw))
    return out


def sized_encs(types, mode, q, vers=VERS, **kw):
    out = []
    kw.setdefault("max_instrs", 60_000_000)
    for k in types:
        if k in (12, 13):
            continue
        for v in vers:
            if k == 15 and v != 5:
                continue
            if k in (2, 4, 5, 6, 7, 9, 11, 14) and v != 5:
                continue
            for n in (QSIZES if q else SIZES):
                idx = {1: range(1, 8), 2: range(1, 9), 3: (1, 2, 3, 4, 5), 14: (1, 2, 3), 15: (1, 2, 3)}.get(k, (1, 2))
                idx = list(idx)
                idx = idx if not q else [idx[(n + v) % len(idx)], idx[(n // 7 + 1) % len(idx)]]
                for i in sorted(set(idx)):
                    out.append(S("enc", k, v, 1, 1, *big(1, 2, i, n), 1, mode, **kw))
    return out


def sized_pubs(mode, q, **kw):
    kw.setdefault("max_instrs", 400_000_000)
    ns = [span(0, 301), span(8170, 30), span(16350, 50), 65536, 140000]
    if not q:
        ns += [span(300, 300), span(65500, 60), 1 << 18, 1 << 20, span(2097130, 20), 2097152]
    return [S("enc", 3, v, 0, 0, *big(1, 2, 0, 0), 2, mode, n, timeout=200, **kw) for v in (3, 5) for n in ns]


def long_enc_lists(mode, q, types=(8, 9, 10, 11), **kw):
    kw.setdefault("max_instrs", 200_000_000)
    out = []
    for k in types:
        for v in VERS:
            for n in (span(1, 135), 257) + ((66000,) if k in (9, 11) else (9000,)) if q else (span(1, 200), span(250, 10), 1000, 66000):
                out.append(S("enc", k, v, n, 1, *big(1, 2, 0, 0), 1, mode, timeout=200, **kw))
    return out


def anys(types, q, vers=(0,), **kw):
    out = []
    for k in types:
        if k in (12, 13):
            out.append(S("any", k, 0, 0, 0, *big(1, 2, 0, 0), 0, **kw))
            continue
        for n in ([0, 1, 2] if k in (8, 9, 10, 11) else [0]):
            if k == 1:
                for m in [1, 2] + patterns(20, q):
                    out.append(S("any", k, 0, 0, 0, *big(0, 2, 0, 0), m, **kw))
            else:
                out.append(S("any", k, 0, n, 0, *big(1, 2, 0, 0), 0 if k != 2 else 1, **kw))
                out.append(S("any", k, 0, n, 0, *big(0, 2, 0, 0), 1, **kw))
                out.append(S("any", k, 0, n, 0, *big(0, 1, 0, 0), 2, **kw))
    return out


def hexd(xs):
    return sum(x << (4 * i) for i, x in enumerate(xs))


def seq(types, vers, free, wrong=(), lens=(1, 2), mode=1, n=1, v0=0, **kw):
    return S("seq", hexd(types), hexd(vers), free, hexd(wrong), *big(*lens, 0, 0), mode, n, v0, **kw)


ALL5 = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)
ALL4 = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)


def after_error(q):
    """a malformed packet and what comes after it"""
    out = []
    for v in (5, 4, 3):
        ks = (1,) + (ALL5 if v == 5 else ALL4)
        for i, a in enumerate(ks):
            for w in ((1, 2, 6, 7) if v == 5 else (1, 7)):
                if w == 2 and a in (12, 13):
                    continue
                bs = (ks[(i * 3 + w) % len(ks)],) if q else ks[::2] if w == 6 else ks
                for b in bs:
                    out.append(seq((a, b), (v, v), 3 if w == 6 or a != 1 else 2, (w, 0), v0=v))
                    out.append(seq((a, b, a), (v, v, v), 2, (w, 8, 0), lens=(2, 4), v0=v))
    return out


def twices(q, types, vers=VERS):
    """two or three packets with properties, strings long and empty in turn"""
    out = []
    none = 1 << 62
    for i, k in enumerate(types):
        for v in vers:
            if v != 5 and k == 15:
                continue
            others = [o for o in types if v == 5 or o != 15]
            if q:
                others = [k] + (others[i % 4::4] if v == 5 else [])
            for o in others:
                ko = hexd((k, o))
                md = 1 if 1 in (k, o) else 0
                for fresh in (0, 1) if o == k or not q else ((i + o) & 1,):
                    out.append(S("twice", ko, v, 0, 0, *big(2, 2, 0, 0), 0, fresh, 1, md))
                    if v == 5:
                        out.append(S("twice", ko, v, 0, none, *big(1, 2, 0, 0), 0x12, fresh, 1, md))
                        out.append(S("twice", ko, v, none, 0, *big(1, 2, 0, 0), 0x00, fresh, 1, md))
                out.append(S("twice", ko, v, 0, 0, *big(0, 0, 0, 0), 0x22, o & 1, 1, md))
                if o == k or not q:
                    for m in (1, 2):
                        out.append(S("twice", ko, v, 0, 0, *big(2, 3, 0, 0), 0x00, i & 1, 1, m))
                if v == 5:
                    for m in masks(4 if q else 12, 20):
                        out.append(S("twice", ko, v, m >> 2, 0, *big(1, 3, 0, 0), 0x00, i & 1, 1, md))
                        out.append(S("twice", hexd((k, o, k)), v, m >> 2, (m >> 2) ^ 0xfffff, *big(1, 2, 0, 0), 0x12, 0, 1, 1))
    return out


def sessions(q):
    """longer histories: every packet type, malformed ones, a second CONNECT"""
    out = []
    for v in VERS:
        ks = ALL5 if v == 5 else ALL4
        for r in range(0, len(ks), 3 if q else 1):
            rot = (1,) + ks[r:] + ks[:r]
            for i in (1, len(rot) - 1) if q else range(1, len(rot)):
                out.append(seq(rot, (v,), 1 << i))
                out.append(seq(rot, (v,), 1 << i, [0] + [(j * 5 + r) % 9 for j in range(1, len(rot))], lens=(0, 3)))
    # another client's CONNECT with another version
    for a in VERS:
        for b in VERS:
            if a == b:
                continue
            for k in (ALL4[::3] if q else ALL4):
                for bad in (0, 1, 4):
                    out.append(seq((1, k, 1, k, 12), (a, b), 0b01000, (0, 0, 0, 0, 0)))
                    out.append(seq((1, k, 1, 3, k), (a, b), 0b10010, (0, bad, 0, bad, 0)))
            # the second CONNECT is refused: the version stays
            for w in (1, 3, 7):
                out.append(seq((1, 1, 3, 8), (a, b), 0b0100, (0, w, 0, 0)))
                out.append(seq((1, 1, 9, 10), (a, b), 0b0010, (0, w, 0, 0)))
    return out


def manies(targets, mode, q, **kw):
    out = []
    for k in targets:
        for (n, names) in ((span(3, 20), 17), (40, 3), (130, 13), (300, 1)) + (((70, 70), (1000, 10), (1000, 2)) if k in (3, 14) else ()) if q else ((span(1, 40), 17), (span(1, 40), 1), (40, 3), (70, 70), (130, 13)):
            out.append(S("many", k, n, names, mode, 0, 0, **kw))
        out.append(S("many", k, 5, 3, mode, 0, 0, 300, **kw))
        # many names, sections of more than 64 KiB and 2 MiB
        out.append(S("many", k, 700, 690, mode, 0, 0, 0, 0, 1, max_instrs=60_000_000, **kw))
        out.append(S("many", k, 240, 3, mode, 0, 0, 0, 300, 1, **kw))
        if not q or k in (3, 11):
            out.append(S("many", k, 36, 3, mode, 0, 0, 0, 65000, 1, timeout=200, max_instrs=400_000_000))
        if k == 3:
            for ids in (span(1, 20), 33, 129) if q else (span(1, 35), span(120, 15), 300):
                out.append(S("many", k, 3, 3, mode, ids, 1, **kw))
                out.append(S("many", k, 0, 1, mode, ids, 0, **kw))
        if not q:
            out.append(S("many", k, 1000, 10, mode, 0, 0, timeout=200, max_instrs=40_000_000, **kw))
            out.append(S("many", k, 300, 290, mode, 0, 0, timeout=250, max_instrs=40_000_000, **kw))
    return out


def many_encs(types, mode, q, **kw):
    kw.setdefault("max_instrs", 40_000_000)
    out = []
    for k in types:
        for n in ((span(101, 30), 150, 400 if k == 3 else 230) if q else (span(101, 70), 230)):
            out.append(S("enc", k, 5, 1, n, *big(1, 2, 0, 0), 1, mode, **kw))
        # sections of more than 64 KiB and 2 MiB
        out.append(S("enc", k, 5, 1, 10240, *big(1, 2, 0, 0), 1, mode, **kw))
        if not q or k == 10:
            out.append(S("enc", k, 5, 1, 20036, *big(1, 2, 0, 0), 1, mode, timeout=200, max_instrs=600_000_000))
        if k == 3:
            for ids in ((span(1, 24), 129) if q else (span(1, 40), span(120, 15), 300)):
                out.append(S("enc", k, 5, 1, 0, *big(1, 2, 0, 0), 1, mode, 0, ids, **kw))
    return out


def splits(q, modes, types=TYPES, vers=VERS):
    out = []
    for k in types:
        for v in vers:
            if k == 15 and v != 5:
                continue
            for m in modes:
                b = (0, 12) if m < 2 else (0, 1)
                for (n, cap) in ((1, 0), (1, 5)) if q else ((1, 0), (2, 0), (1, 1), (2, 5), (3, 16)):
                    out.append(S("split", k, v, span(0 if m >= 2 else 1, 70), span(*b) if m < 2 else 0, *big(1, 2, 0, 0), 1, n, cap, m))
    for m in modes:
        kw = dict(max_instrs=60_000_000, timeout=200)
        for (n, at) in ((9000, 8192), (70000, 65536), (140000, 131072)):
            out.append(S("split", 3, 5, span(at - 40, 60), span(0, 3) if m < 2 and not q else 0, *big(1, 2, 0, 0), 1, n, 0, m, **kw))
        for k in (1, 8, 10):
            out.append(S("split", k, 4, span(8170, 40), 0, *big(1, 2, 1, 9000), 1, 1, 0, m, **kw))
    return out


def hists(q, firsts, types, vers=(5,)):
    """what is encoded and decoded after long histories"""
    out = []
    for a in firsts:
        for k in types:
            for v in vers:
                if v != 5 and 15 in (a, k):
                    continue
                n = 300 if q else 1100
                out.append(S("hist", a, k << 8 | v, n, 1 << 4, *big(1, 2, 0, 0), 1, 1, max_instrs=80_000_000))
                out.append(S("hist", a, k << 8 | v, n if a == k else 40, 3 << 4 | 1, *big(0, 3, 0, 0), 2 if k in (1, 2, 3) else 0, 2, max_instrs=80_000_000))
                if not q:
                    out.append(S("hist", a, k << 8 | v, span(1, 40), 1 << 4, *big(1, 2, 0, 0), 1, 1, max_instrs=80_000_000))
    for k in types if not q else (3,) if 3 in types else ():
        out.append(S("hist", k, k << 8 | 5, 2100 if q else 66000 // (1 if k in (4, 5, 6, 7, 12, 13) else 4), 0, *big(1, 2, 0, 0), 1, 1, max_instrs=2_000_000_000, timeout=300))
    return out


def laters(q, types=TYPES, vers=VERS):
    out = []
    for k in types:
        for v in vers:
            if k == 15 and v != 5:
                continue
            out.append(S("later", k, v, span(8110, 90), 0, *big(1, 2, 0, 0), 1, 1))
            out.append(S("later", k, v, span(1, 60), 0, *big(1, 2, 0, 0), 1, 1, 32))
            out.append(S("later", k, v, 0, span(0, 14 if q else 40), *big(1, 2, 0, 0), 1, 1))
            out.append(S("later", k, v, 0, 301 if q else 5000, *big(1, 2, 0, 0), 1, 1, max_instrs=20_000_000))
            if not q:
                out.append(S("later", k, v, span(16300, 90), 0, *big(1, 2, 0, 0), 1, 1))
                out.append(S("later", k, v, span(65400, 140), 0, *big(1, 2, 0, 0), 1, 1, timeout=200))
                out.append(S("later", k, v, span(8110, 90), 7, *big(1, 3, 0, 0), 1, 2))
    for k in (3, 8) if q else types:
        out.append(S("later", k, 5, 0, 66000, *big(1, 2, 0, 0), 1, 1, max_instrs=400_000_000, timeout=300))
    return out


def huges(q):
    out = []
    mx = 268435455
    for v in VERS:
        b = 5 + (v == 5)
        out += [S("huge", 3, v, mx - b + d, max_instrs=50_000_000) for d in ((0, 1) if q else (-70000, -1, 0, 1, 2, 70000))]
        out += [S("huge", 3, v, (m << 32) - b + d, max_instrs=50_000_000) for m in ((1,) if q else (1, 2)) for d in (-1, 0, 1, 100)]
        out += [S("huge", k, v, n, max_instrs=50_000_000) for k in (8, 10) for n in ((4097, 65540) if q else (4097, 5000, 65534, 65537, 65540))]
    return out


def directs(q, types=TYPES):
    out = []
    for k in types:
        for v in VERS:
            if k == 15 and v != 5:
                continue
            for sh in ((1,) if q else range(7)):
                for m in (1, 2) if k in (1, 2) else (0, 1):
                    out.append(S("direct", k, v, 1 if q else 2, sh if v == 5 else 1, *big(1, 2, 0, 0), m))
    return out


# ------------------------------------------------------------------ properties

def C01(t):
    q = t == "quick"
    kw = dict(x=CRASH, kinds=CRASH_KINDS)
    out = []
    for k in range(0, 16):
        out += frames([k], [0], range(0, 6 if q else 9), 0, 1, **kw)
        out += frames([k], [5], range(6 if q else 9, (9 if k == 9 else 10) if q else 12), 0, 1, **kw)
    out += connects(0, q, **kw)
    out += [S("stream", n, 0, 0, **kw) for n in range(1, 6 if q else 8)]
    out += [S("short", k, 5, n, 0, **kw) for k in (1, 3, 8, 14) for n in (0, 3)]
    out += propsets(PROP_TARGETS, 0, q, **kw)
    out += wires(TYPES, REENC, q, vers=(4, 5), **kw)
    out += sized_payloads(0, True, **kw)[:6]
    out += anys(TYPES, q, **kw)
    out += str_wires(TYPES, REENC, q, vers=(5, 4), **kw) + str_encs(TYPES, ROUND, q, vers=(5,), **kw)
    out += edge_wires(TYPES, REENC, q, vers=(5,), **kw) + edge_encs(TYPES, ROUND, q, vers=(5,), **kw)
    out += long_lists(REENC, q, vers=(5, 4), **kw) + long_enc_lists(ROUND, q, **kw)
    out += [S("connect", v, 2 + m, 0, 6, 0, 2, **kw) for v in (3, 4, 5) for m in (range(9, 20) if q else range(9, 36))]
    out += [S("fault", k, 5, 1, 1, *big(1, 2, 0, 0), 1, e, c, **kw) for k in (1, 3, 4, 8, 12, 14) for e in (0, 1, 3) for c in (0, 4)]
    out += [S("long", k, 5, 1, 1, *big(1, 2, i, n), 1, 0, x=CRASH, kinds=CRASH_KINDS, max_instrs=60_000_000) for k in (1, 3, 8, 10, 14) for i in (1, 2, 3) for n in (65535, 65536, 70000)]
    out += [S("varread", n, 0, **kw) for n in range(0, 7)]
    out += [S("codes", i, **kw) for i in range(9)] + [S("fixed", **kw), S("flags", **kw)]
    out += [S("limits", 4, 3, 2, **kw)]
    return out


def C02(t):
    q = t == "quick"
    out = []
    for k in range(0, 16):
        out += frames([k], [5, 4], range(0, 7 if q else 11), SYNC, 1)
    out += connects(SYNC, q)
    out += wires(TYPES, SYNC, q)
    out += propsets(PROP_TARGETS, SYNC, q)
    out += [S("header", nb, 0, n) for nb in (1, 2, 3, 4) for n in ((0, 2) if q else (0, 1, 2, 3, 4))]
    ks = (1, 2, 3, 4, 6, 8, 9, 10, 11, 13, 14, 15)
    for a in ks:
        for b in (3, 9, 14) if q else ks:
            n = 3 if q else 4
            if a in (9, 11, 14) and b in (9, 11, 14):
                n = 2 if q and a == b else 3
            out.append(S("pair", a, b, n, n, 5))
            out.append(S("pair", a, b, 2, 4, 4))
    out += [S("stream", n, 5, 0) for n in range(1, 6 if q else 7)]
    out += sized_payloads(SYNC, q)
    out += sized_wires((1, 8, 10, 4, 14), SYNC, q, vers=(5, 4))
    out += after_error(q)
    out += laters(q)
    return out


def C03(t):
    q = t == "quick"
    out = []
    for k in TYPES:
        for v in (VERS if not q else (5, 4, 3)):
            if k == 15 and v != 5:
                continue
            for n in ([1, 2] if k in (8, 9, 10, 11) else [1]):
                for m in ([0] if k not in (1, 2) else [1, 2] + patterns(10, q)):
                    out.append(S("cut", k, v, n, 1 if v == 5 else 0, *big(1, 2, 0, 0), m if n == 1 else 1))
    out += [S("cut", k, 5, 1, sh, *big(0, 3, 0, 0), 1) for k in TYPES for sh in (2, 3)]
    for k in range(1, 16):
        for n in ((0, 1, 3, 5) if q else (0, 1, 2, 3, 4, 5, 6, 7)):
            out.append(S("short", k, 5, n, 0))
    for v in (3, 4):
        out += [S("short", k, v, n, 0) for k in (1, 2, 3, 4, 8, 9, 10, 11) for n in (2, 4)]
    out += [S("stream", n, 0, 0) for n in range(1, 5 if q else 6)]
    out += [S("stream", n, 5, f) for f in (0x10, 0x30, 0x32, 0x40, 0x82, 0x90, 0xB0, 0xE0, 0xF0) for n in ((6,) if q else (6, 7))]
    out += [S("cut", k, v, 1, 1, *big(1, 2, 1, n), 1, max_instrs=60_000_000) for k in (1, 3, 8, 10) for v in (5, 4) for n in (130, 8192, 16384, 65535)]
    out += splits(q, (7,))
    return out


def C04(t):
    q = t == "quick"
    out = []
    for k in TYPES:
        for v in (5, 4):
            for cap in ((0, 1, 3) if q else (0, 1, 2, 3, 5, 8)):
                out.append(S("chunk", k, v, 4, cap, 2 if q else 4, 0))
            for (cap, junk) in ((2, 1), (4, 1), (16, 2), (64, 1)) if q else ((2, 1), (3, 1), (3, 2), (4, 1), (5, 4), (8, 3), (16, 2), (16, 15), (64, 1), (8192, 5)):
                out.append(S("chunk", k, v, 3, cap, 1, 0, x={11: junk}))
            if k in (12, 13) or (k == 15 and v != 5):
                continue
            out.append(S("chunk", k, v, 1, 16, 2, 1, *big(1, 2, 0, 0), 1, 3))
            out.append(S("chunk", k, v, 1, 64, 2, 1, *big(1, 2, 0, 0), 1, 1))
            for cap in (0, 1, 4):
                # structured packet: p2 entries, p5=1, p6.. lengths, p10 presence
                out.append(S("chunk", k, v, 1, cap, 3 if q else 5, 1, *big(1, 2, 0, 0), 1))
            for e in range(5):
                out.append(S("fault", k, v, 1, 1 if v == 5 else 0, *big(1, 2, 0, 0), 0 if k not in (1, 2) and e == 0 else 1, e, 0))
            out.append(S("fault", k, v, 1, 0, *big(0, 2, 0, 0), 1, 1, 2))
            out.append(S("fault", k, v, 1, 1, *big(2, 3, 0, 0), 2, 2, 1))
    out += splits(q, (0, 1, 2, 3) if q else (0, 1, 2, 3, 4, 5, 6))
    out += laters(True, vers=(5,))
    return out


def C05(t):
    q = t == "quick"
    out = [S("varint", 0), S("varint", 1)]
    out += [S("varread", n, l) for n in range(0, 8) for l in range(0, 7) if l <= n]
    out += [S("header", nb, 5, n) for nb in (1, 2, 3, 4) for n in (0, 1, 2, 3)]
    out += [S("frame", k, 5, n, FID, 0) for k in (8, 2, 3, 14) for n in (5, 6, 7, 8)]
    # subscription identifiers and property lengths of every size
    out += [S("enc", k, 5, 1, 1, *big(1, 2, 0, 0), 1 if k == 3 else 0, STRICT | ROUND) for k in (3, 8)]
    out += [S("enc", 3, 5, 1, 0, *big(1, 2, 0, 0), 0, STRICT | ROUND)]
    out += [S("wire", 8, 5, 1, FID, *big(1, 2, 0, 0), 0, 0, 0)]
    out += sized_pubs(STRICT, q) + sized_payloads(FID, q)
    out += [S("propio", 0x0B, *big(1, 2, 0, 0), 0), S("propio", 0x0B, *big(1, 2, 0, 0), 1)]
    out += [S("props", k, m, 0, FID, *big(1, 2, 0, 0)) for k in (3, 8) for m in (1, 2)]
    out += sized_encs((2, 3, 8, 10, 14), STRICT, True, vers=(5,))
    out += huges(True)
    out += edge_encs(TYPES, STRICT, q, vers=(5, 4) if q else VERS) + edge_wires(TYPES, FID, q, vers=(5, 4) if q else VERS)
    return out


def C06(t):
    q = t == "quick"
    return many_encs([k for k in TYPES if k not in (12, 13)], STRICT, q) + encs(TYPES, STRICT, q) + str_encs(TYPES, STRICT, q) + edge_encs(TYPES, STRICT, q) + sized_encs(TYPES, STRICT, q) + sized_pubs(STRICT, q) + long_enc_lists(STRICT, q) + sum((hists(q, (k,), (k,)) for k in TYPES), [])


def C07(t):
    q = t == "quick"
    out = anys(TYPES, q)
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15):
        for v in (5, 4):
            if v == 4 and k in (2, 4, 5, 6, 7, 9, 11, 14, 15):
                continue
            for i in {1: range(1, 13), 2: range(1, 10), 3: range(1, 8), 14: range(1, 5), 15: range(1, 6)}.get(k, range(1, 5)):
                if k == 3 and i == 2:
                    continue  # the payload may be that long
                for n in ((65536,) if q else (65536, 65537, 70000, 131071, 131072)):
                    if v == 4 and k == 1 and i not in (1, 2, 3, 4, 5, 6):
                        continue
                    if v == 4 and k != 1 and i > 1:
                        continue
                    out.append(S("long", k, v, 1, 1, *big(1, 2, i, n), 1, 0, max_instrs=60_000_000))
    out += [S("varint", 1)]
    out += huges(q)
    return out


def rt(types, t):
    q = t == "quick"
    l = [k for k in types if k in (8, 9, 10, 11)]
    out = encs(types, ROUND, q) + str_encs(types, ROUND, q) + edge_encs(types, ROUND, q) + sized_encs(types, ROUND, q)
    if l:
        out += long_enc_lists(ROUND, q, l)
    if 3 in types:
        out += sized_pubs(ROUND, q)
    out += many_encs([k for k in types if k not in (12, 13)], ROUND, q) + directs(q, types)
    for k in types:
        out += hists(q, (k,), (k,), (5, 4))
    return out


def C08(t): return rt((1,), t)
def C09(t): return rt((3,), t)
def C10(t): return rt((4, 5, 6, 7, 9, 11), t)
def C11(t): return rt((8, 10), t)
def C12(t): return rt((2, 12, 13, 14, 15), t)


def fid(types, t, vers=VERS):
    q = t == "quick"
    out = arbitrary(types, FID, q, vers=(5, 4, 3) if not q else (5, 4))
    out += wires(types, FID, q, vers)
    out += str_wires(types, FID, q, vers) + edge_wires(types, FID, q, vers)
    out += propsets([k for k in types if k in PROP_TARGETS], FID, q)
    out += alls([k for k in types if k in PROP_TARGETS], FID, q)
    out += sized_wires(types, FID, q)
    l = [k for k in types if k in (8, 9, 10, 11)]
    if l:
        out += long_lists(FID, q, l)
    return out + manies([k for k in types if k in PROP_TARGETS], FID, q)


def C13(t):
    q = t == "quick"
    return connects(FID, q) + fid((1,), t) + propsets((WILL,), FID, q) + alls((WILL,), FID, q) + manies((WILL,), FID, q)


def C14(t): return fid((3, 4, 5, 6, 7), t) + sized_payloads(FID, t == "quick")
def C15(t): return fid((8, 9, 10, 11), t)
def C16(t): return fid((2, 12, 13, 14, 15), t)


def C17(t):
    q = t == "quick"
    out = propsets(PROP_TARGETS, FID, q) + alls(PROP_TARGETS, FID, q)
    out += subsets(PROP_TARGETS, FID | REENC, q)
    # all properties plus one: k=3 with more identifiers; every subset size
    out += [S("allprops", k, rot, 0, FID, *big(1, 2, 0, 0), n) for k in (1, 2, 3, 15, WILL) for rot in (0, 3) for n in ((3, 5) if q else (2, 3, 4, 5, 6, 7, 8))]
    out += [S("enc", k, 5, 1, 1, *big(1, 2, 0, 0), 1, STRICT) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15)]
    out += manies(PROP_TARGETS, FID, q)
    return out


def C18(t):
    q = t == "quick"
    out = [S("codes", i) for i in range(9)]
    out += frames((2, 4, 5, 6, 7, 9, 11, 14, 15), VERS, range(0, 5 if q else 7), FID)
    out += [S("enc", k, 5, n, 0, *big(1, 2, 0, 0), 0, STRICT | ROUND) for k in (2, 4, 5, 6, 7, 9, 11, 14, 15) for n in ((1, 2) if k in (9, 11) else (1,)) if k != 2]
    out += [S("enc", 9, v, n, 0, *big(1, 2, 0, 0), 0, STRICT | ROUND) for v in (3, 4) for n in (1, 2)]
    out += [S("enc", 2, v, 1, 0, *big(1, 2, 0, 0), 2, STRICT | ROUND) for v in VERS]
    out += [S("any", k, 0, 1, 0, *big(1, 2, 0, 0), 0) for k in (4, 5, 6, 7, 14, 15)]
    out += [S("any", 9, 0, n, 0, *big(1, 2, 0, 0), 0) for n in (1, 2)] + [S("any", 11, 0, n, 0, *big(1, 2, 0, 0), 0) for n in (1, 2)]
    out += [S("wire", k, 5, n, FID, *big(1, 2, 0, 0), 0, 0, 1) for k in (4, 5, 6, 7, 9, 11, 14, 15) for n in (1, 2)]
    return out


def C19(t):
    q = t == "quick"
    out = [S("fixed"), S("flags"), S("codes", 8)]
    out += [S("header", nb, v, n) for nb in (1, 2) for v in (0, 3, 4, 5) for n in ((0, 1, 2) if q else (0, 1, 2, 3, 4, 5))]
    out += frames(range(0, 16), [5, 4], [0, 2, 4, 5] if q else range(0, 8), FID | SYNC, 1)
    out += encs((3,), STRICT | ROUND, q, shapes=(0, 1))
    out += [S("enc", k, v, 1, 0, *big(1, 2, 0, 0), 1, STRICT | ROUND) for k in TYPES for v in VERS if not (k == 15 and v != 5)]
    out += [S("any", 3, 0, 0, 0, *big(1, 2, 0, 0), 0)]
    return out


def C20(t):
    q = t == "quick"
    out = []
    for k in TYPES:
        if k in (12, 13):
            continue
        for n in ([1, 2] if k in (8, 9, 10, 11) else [1]):
            for sh in ((1, 3) if q else range(7)):
                for m in ([0, 1] if k not in (1, 2) else [1, 2] + patterns(12, q)):
                    out.append(S("iso", k, 0, n, sh, *big(1, 2, 0, 0), m))
    out += frames(TYPES, [0, 3, 4, 6, 255], range(0, 5 if q else 8), FID)
    # MQTT 5 bytes after the parts an older packet has, and the reverse
    for k in TYPES:
        if k not in (12, 13):
            out += [S("wire", k, v, 1, FID, *big(1, 2, 0, 0), 1, j, 0) for v in (3, 4) for j in (1, 2, 3) if k != 15]
    out += [S("session", v, k1, k2, 1, *big(1, 2, 0, 0), 1, 0) for v in VERS for (k1, k2) in ((3, 8), (10, 14), (4, 2))]
    out += connects(FID, True, vers=(3, 4, 5))
    return out


def C21(t):
    q = t == "quick"
    out = [S("limits", m, n, d, timeout=300) for m in ((2, 3, 4) if q else (2, 3, 4, 5)) for n in (2, 3, 4) for d in (1, 2, 3)]
    out += [S("varread", n, l) for n in range(1, 7) for l in range(1, 6) if l <= n]
    # property sections whose inner lengths disagree with the outer ones
    for k in PROP_TARGETS:
        out += [S("props", k, n, 0, FID | SYNC, *big(1, 2, 0, 0), 1) for n in ((3, 4, 5) if q else (3, 4, 5, 6, 7, 8))]
    out += frames((2, 3, 4, 8, 9, 10, 11, 14, 15), [5], range(3, 8 if q else 11), FID | SYNC)
    out += [S("connect", 5, 0, np, n, FID | SYNC) for np in (2, 3) for n in (2, 4)]
    return out


def C22(t):
    q = t == "quick"
    out = []
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15):
        for m in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            out.append(S("wire", k, 5, 1, FID, *big(1, 1, 0, 0), 1 if k == 1 or m > 3 else 0, 0, m, timeout=200))
        out.append(S("wire", k, 5, 1, FID, *big(0, 1, 0, 0), 1, 0, 3))
        for sh in range(7):
            for m in ((1,) if q or k in (1, 2) else (0, 1)):
                out.append(S("enc", k, 5, 1, sh, *big(1, 1, 0, 0), m, STRICT | ROUND))
                out.append(S("enc", k, 5, 1, sh, *big(0, 1, 0, 0), m, STRICT | ROUND))
    out += propsets((4, 10, 14), FID, True)
    out += [S("propio", 0x26, *big(a, b, 0, 0), s) for (a, b) in ((1, 1), (0, 2), (2, 3)) for s in (0, 1)]
    out += keys(PROP_TARGETS, FID | REENC, q)
    out += manies(PROP_TARGETS, FID, q) + many_encs((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15), STRICT | ROUND, q)
    return out


def C23(t):
    q = t == "quick"
    out = []
    for k in (1, 3, 4, 8, 10, 14, 15, 2):
        for v in (5, 4):
            if v == 4 and k not in (1, 3, 8, 10):
                continue
            for (a, b) in ((3, 3), (4, 4), (0, 4)) if q else ((3, 3), (4, 4), (5, 5), (0, 5), (6, 6)):
                out.append(S("wire", k, v, 1, FID, *big(a, b, 0, 0), 1, 0, 1 if v == 5 and k not in (1, 3) else 0, timeout=200))
    out += sized_wires((1, 3, 8, 10, 14, 15, 4), FID, q, vers=(5, 4))
    out += str_wires(TYPES, FID, q, vers=(5, 4), lens=(span(3, 30),) if q else (span(3, 30), span(33, 32)))
    out += str_encs((1, 2, 3, 8, 10, 14, 15), ROUND, q, vers=(5,))
    out += C07_long(q)
    out += sized_encs((1, 2, 3, 8, 10, 14, 15), ROUND, q, vers=(5,))
    out += [S("prim", 1, *big(a, 6, 0, 0), 0, op) for op in (4, 5, 6) for a in range(0, 7)]
    out += [S("prim", 1, *big(1, 2, 1, n), c, op, max_instrs=60_000_000) for op in (4, 5, 6) for n in (255, 256, 65534, 65535) for c in (0, 100)]
    return out


def C07_long(q):
    return [s for s in C07("quick" if q else "thorough") if s.fn == "harness_long"]


def C24(t):
    q = t == "quick"
    out = arbitrary(TYPES, REENC, q)
    out += connects(REENC, q)
    out += wires(TYPES, REENC, q)
    out += propsets(PROP_TARGETS, REENC, True)
    out += alls(PROP_TARGETS, REENC, q)
    out += sized_wires((1, 3, 8, 10, 14), REENC, True, vers=(5, 4))
    out += manies((1, 3, 8, 14), REENC, True)
    return out


def C25(t):
    q = t == "quick"
    out = [S("make", i, sh) for i in range(10) for sh in (range(7) if 4 <= i <= 7 else (1,))]
    for k in (1, 2, 3, 8, 14, 15, WILL):
        out += [S("props", k, m, 0, FID, *big(1, 2, 0, 0)) for m in ((0, 1, 2) if q else (0, 1, 2, 3))]
        out += [S("allprops", k, rot, 0, FID, *big(1, 2, 0, 0), n) for rot in range(0, 17 if k == 2 else 9, 3 if q else 1) for n in ((1, 4) if q else (1, 4, 7))]
    out += subsets((1, 2, 3, 8, 14, 15, WILL), FID, q)
    out += frames((2, 4, 5, 6, 7, 14, 15), [5], range(0, 5), FID)
    out += [S("connect", 5, 0, 0, n, FID, 2) for n in (2, 3)] + [S("connect", 5, 0, 0, n, FID, 6) for n in (7, 8)]
    return out


def C26(t):
    q = t == "quick"
    out = []
    for k in range(1, 16):
        for n in ((0, 1, 2, 4) if q else (0, 1, 2, 3, 4, 5, 6, 7)):
            out.append(S("short", k, 5, n, 131072))
        if k in (1, 2, 3, 8, 9, 10, 11):
            out += [S("short", k, 4, n, 131072) for n in (0, 2, 4)]
    # more arrives than is read at once
    for k in (0, 1, 2, 3, 4, 8, 9, 10, 11, 14, 15):
        for n in (65530, 70000, 140000) if q else (8192, 60000, 65530, 65536, 70000, 131072, 140000, 200000, 300000):
            out.append(S("short", k, 5 if k % 2 else 4, n, 131072 + 4 * n, 2 * n + 131072, max_instrs=20_000_000))
    return out


def C27(t):
    q = t == "quick"
    out = []
    ks = (2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)
    for v in VERS:
        for i, a in enumerate(ks):
            for b in ((ks[(i * 5 + 3) % len(ks)], ks[(i + 1) % len(ks)]) if q else ks):
                if v != 5 and 15 in (a, b):
                    continue
                for bad in (0, 1):
                    out.append(S("session", v, a, b, 1, *big(1, 2, 0, 0), 1, bad))
                out.append(S("session", v, a, b, 2, *big(0, 2, 0, 0), 2, 0))
                if not q:
                    out.append(S("session", v, a, b, 2, *big(2, 3, 0, 0), 0x5555555755 | 3, 1))
    out += sessions(q)
    out += after_error(q)[::3 if q else 1]
    out += laters(q, vers=VERS)
    out += twices(q, (1,) + ks)
    for i, k in enumerate((1,) + ks):
        out += hists(q, ((1,) + ks)[i % (3 if q else 1)::3 if q else 1], (k,), (5, 4))
    return out


def C28(t):
    return [S("make", i, sh) for i in range(10) for sh in (range(7) if 4 <= i <= 7 else (1,))] + [S("any", k, 0, 1, 0, *big(1, 2, 0, 0), 0) for k in (4, 5, 6, 7)] + [S("enc", k, v, 1, sh, *big(1, 2, 0, 0), 0, STRICT | ROUND) for k in (4, 5, 6, 7) for v in VERS for sh in (range(7) if v == 5 else (1,))]


IDS = (0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A)


def C29(t):
    q = t == "quick"
    out = [S("varint", 0), S("varint", 1)]
    out += [S("varread", n, 0) for n in range(0, 7)]
    for op in range(1, 7):
        out += [S("prim", 1, *big(a, 5, 0, 0), c, op) for a in (0, 1, 2, 3, 5) for c in (0, 7)]
    out += [S("prim", m, *big(a, 2, 0, 0), 4) for m in ((2, 3) if q else (2, 3, 4)) for a in (0, 1)]
    out += [S("prim", 1, *big(1, 2, 1, n), c, op, max_instrs=60_000_000) for op in (4, 5, 6) for n in (255, 256, 8191, 8192, 8193, 65535) for c in (0, 100)]
    for i in IDS:
        for (a, b) in ((1, 2), (0, 3)):
            for two in (0, 1):
                out.append(S("propio", i, *big(a, b, 0, 0), two))
    out += [S("codes", 8), S("codes", 9), S("fixed"), S("flags")]
    return out


# decided on the crate built with serde_support
SERDE = ("C30",)


def C31(t):
    q = t == "quick"
    out = [S("eqcode", k) for k in range(9)]
    b = lambda i, n: big(1, 2, i, n)
    for k in TYPES:
        full = range(0, 26 if k in (1, 2) else 14 if k in (3, 14) else 8)
        # equal presence, differing in one option, in lengths, entries and names
        for sh in range(7):
            out.append(S("eq", k, k, 2, sh, *b(0, 0), 1, 1))
        for m in masks(4 if q else 40, 30) + ([0] if 4 <= k <= 7 or k in (9, 11) else []):
            out.append(S("eq", k, k, 1, 1, *b(0, 0), m, m))
        for i in full:
            for m in (((1 << 30) - 1) << 2 | 3,) + tuple(masks(0 if q else 6, 30)):
                out.append(S("eq", k, k, 1, 0, *b(0, 0), m, m ^ (1 << 2 + i)))
        for more in (1, 2):
            out.append(S("eq", k, k, 2, 1, *b(0, 0), 1, 1, 0, more))
        out.append(S("eq", k, k, 1, 1, *b(0, 0), 1, 1, 0, 0, 1))
        for (sh, more) in ((0, 1), (1, 1), (2, 1), (3, 1), (3, 2), (5, 1), (2, 4)):
            out.append(S("eq", k, k, 1, sh, *b(0, 0), 1, 1, 0, 0, 0, more))
        for m in (1, 3) + tuple(masks(4, 30)):
            out.append(S("eq", k, k, 1, 0, *b(0, 0), m, m, 1))
        for i in full:
            m = ((1 << 30) - 1) << 2 | 3
            out.append(S("eq", k, k, 1, 0, *b(0, 0), m, m ^ (1 << 2 + i), 1))
            # an empty part is not an absent one
            for e in (0, 1):
                out.append(S("eq", k, k, 1, 0, *big(0, 0, 0, 0), m, m ^ (1 << 2 + i), e))
        for n in (span(120, 20), span(250, 12), 1000, 9000) + (() if q else (65535,)):
            for i in (1, 2):
                out.append(S("eq", k, k, 1, 1, *b(i, n), 1, 1, max_instrs=60_000_000))
        for n in (40, 140, 300):
            if k in (8, 9, 10, 11):
                out.append(S("eq", k, k, n, 0, *b(0, 0), 1, 1))
        for o in TYPES:
            if o != k:
                out.append(S("eq", k, o, 1, 1, *b(0, 0), 1, 1))
                out.append(S("eq", k, o, 1, 1, *b(0, 0), 2, 2))
    return out


def C30(t):
    q = t == "quick"
    out = [S("serpart", i, f) for i in range(8) for f in range(3)]
    for e in encs(TYPES, 0, q, vers=(4, 5)):
        p = e.pstr.split(",")
        for f in range(3):
            p[9] = str(f)
            out.append(S("ser", *p))
    for f in range(3):
        for k in TYPES:
            for n in ((0, 1, 2) if k in (8, 9, 10, 11) else (0,)):
                for m in ([0] if k not in (1, 2) else patterns(24, q)):
                    if k != 9 or n < 2 or not q:
                        out.append(S("ser", k, 0, n, 0, *big(1, 2, 0, 0), m, f))
        for k in (1, 2, 3, 4, 8, 14, 15):
            for b in range(1, 9):
                out += [S("ser", k, 5, 1, 1, *big(1, 2, b, n), 1, f, max_instrs=40_000_000) for n in ((33, 300) if q else (33, 127, 128, 300, 8193, 65535, 65536))]
        for k in ((3, 4, 14) if q else (1, 2, 3, 4, 8, 10, 11, 14, 15)):
            out.append(S("ser", k, 5, 1, 109, *big(1, 2, 0, 0), 1, f, max_instrs=40_000_000))
    return out


PROPS = {n: f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "C" and n[1:].isdigit()}
