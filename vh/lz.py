"""Writers of compressed data (deflate, LZX), to reach what the stdlib compressors never emit."""
import struct


class LSB:
    """Deflate bit order."""

    def __init__(self):
        self.v = 0
        self.n = 0

    def bits(self, value, n):
        self.v |= value << self.n
        self.n += n

    def code(self, code):
        n, value = code
        self.bits(int(format(value, "0%db" % n)[::-1], 2), n)

    def align(self, n=8):
        self.n += -self.n % n

    def raw(self, data):
        assert self.n % 8 == 0
        self.bits(int.from_bytes(data, "little"), 8 * len(data))

    def bytes(self):
        return self.v.to_bytes((self.n + 7) // 8, "little")


class LZXBits:
    """16-bit little endian words, most significant bit first."""

    def __init__(self):
        self.out = []

    def bits(self, value, n):
        if n:
            self.out.append(format(value, "0%db" % n))

    def code(self, code):
        self.bits(code[1], code[0])

    def size(self):
        s = "".join(self.out)
        self.out = [s]
        return len(s)

    def align(self, n=16):
        k = -self.size() % n
        self.bits(0, k)
        return k

    def raw(self, data):
        assert self.size() % 16 == 0
        if len(data) % 2:
            data += b"\0"
        for i in range(0, len(data), 2):
            self.bits(struct.unpack_from("<H", data, i)[0], 16)

    def bytes(self):
        self.align()
        s = "".join(self.out)
        return b"".join(struct.pack("<H", int(s[i:i + 16], 2)) for i in range(0, len(s), 16))


def lengths(rng, symbols, total, limit, extra=2):
    """Lengths of a random complete prefix code for the given symbols (and maybe a few others)."""
    syms = set(symbols)
    for _ in range(rng.randrange(extra + 1)):
        syms.add(rng.randrange(total))
    while len(syms) < 2:
        syms.add(rng.randrange(total))
    syms = list(syms)
    rng.shuffle(syms)
    leaves = [0]
    deep = rng.random() < 0.4
    while len(leaves) < len(syms):
        i = rng.randrange(max(0, len(leaves) - 3), len(leaves)) if deep else rng.randrange(len(leaves))
        d = leaves.pop(i)
        if d == limit:
            leaves.insert(0, d)
            i = min(range(len(leaves)), key=lambda k: leaves[k])
            d = leaves.pop(i)
        leaves += [d + 1, d + 1]
    res = [0] * total
    for s, d in zip(syms, leaves):
        res[s] = d
    return res


def codes(lens):
    """Canonical Huffman codes: symbol -> (length, code)."""
    res = {}
    code = 0
    for n in range(1, max(lens) + 1):
        for s, k in enumerate(lens):
            if k == n:
                res[s] = (n, code)
                code += 1
        code <<= 1
    return res


def expand(out, length, dist):
    for _ in range(length):
        out.append(out[-dist])


LEN = []
for s in range(257, 285):
    e = max(0, (s - 261) // 4)
    base = LEN[-1][1] + (1 << LEN[-1][2]) if LEN else 3
    LEN.append((s, base, e))
LEN.append((285, 258, 0))
DIST = []
for s in range(30):
    e = max(0, s // 2 - 1)
    DIST.append((s, DIST[-1][1] + (1 << DIST[-1][2]) if DIST else 1, e))
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


def len_symbol(rng, length):
    c = [(s, length - b, e) for s, b, e in LEN if b <= length < b + (1 << e)]
    c = [x for x in c if not (x[0] == 284 and length == 258)]
    return rng.choice(c)


def dist_symbol(dist):
    for s, b, e in DIST:
        if b <= dist < b + (1 << e):
            return s, dist - b, e


def tokens(rng, out, count, maxdist, alphabet, maxlen=258):
    """Random tokens, applied to out: literals and (length, distance)."""
    res = []
    for _ in range(count):
        if not out or rng.random() < 0.6:
            c = rng.choice(alphabet)
            res.append(c)
            out.append(c)
        else:
            k = rng.random()
            m = min(maxdist, len(out))
            d = rng.randint(1, m) if k < .5 else rng.randint(1, min(m, 8)) if k < .8 else m
            n = rng.randint(3, 12) if rng.random() < .7 else rng.choice([maxlen, maxlen - 1, rng.randint(3, maxlen)])
            res.append((n, d))
            expand(out, n, d)
    return res


def rle(rng, lens):
    """Code lengths with repeat codes: (symbol, extra value, extra bits)."""
    res = []
    i = 0
    while i < len(lens):
        run = 1
        while i + run < len(lens) and lens[i + run] == lens[i]:
            run += 1
        if lens[i] == 0 and run >= 3 and rng.random() < .9:
            n = rng.choice([run, rng.randint(3, run)])
            n = min(n, 138)
            if n <= 10:
                res.append((17, n - 3, 3))
            else:
                res.append((18, n - 11, 7))
            i += n
        elif i and lens[i] == lens[i - 1] and run >= 3 and rng.random() < .9:
            n = min(rng.choice([run, rng.randint(3, run)]), 6)
            res.append((16, n - 3, 2))
            i += n
        else:
            res.append((lens[i], 0, 0))
            i += 1
    return res


def deflate(rng, blocks, out=None):
    """Raw deflate stream of random blocks [(kind, count, alphabet)]; returns (data, content)."""
    w = LSB()
    out = bytearray() if out is None else out
    start = len(out)
    for n, (kind, count, alphabet) in enumerate(blocks):
        w.bits(n == len(blocks) - 1, 1)
        w.bits(kind, 2)
        if kind == 0:
            w.align()
            part = bytes(rng.choice(alphabet) for _ in range(count))
            w.raw(struct.pack("<HH", len(part), len(part) ^ 0xffff))
            w.raw(part)
            out += part
            continue
        toks = tokens(rng, out, count, 32768, alphabet)
        items = []
        for t in toks:
            if isinstance(t, tuple):
                items.append((len_symbol(rng, t[0]), dist_symbol(t[1])))
            else:
                items.append(t)
        if kind == 1:
            llen = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8
            dlen = [5] * 32
        else:
            llen = lengths(rng, {256} | {t[0][0] if isinstance(t, tuple) else t for t in items}, 286, 15, 4)
            used = {t[1][0] for t in items if isinstance(t, tuple)}
            if len(used) == 1 and rng.random() < .7:
                dlen = [0] * 30
                dlen[min(used)] = 1
            elif not used and rng.random() < .7:
                dlen = [0] * 30
            else:
                dlen = lengths(rng, used, 30, 15)
            nl = max([257] + [i + 1 for i, k in enumerate(llen) if k])
            nl = rng.choice([nl, 286, rng.randint(nl, 286)])
            nd = max([1] + [i + 1 for i, k in enumerate(dlen) if k])
            nd = rng.choice([nd, 30, rng.randint(nd, 30)])
            r = rle(rng, llen[:nl] + dlen[:nd])
            clen = lengths(rng, {s for s, _, _ in r}, 19, 7, 2)
            k = max(4, max(i + 1 for i, s in enumerate(ORDER) if clen[s]))
            w.bits(nl - 257, 5)
            w.bits(nd - 1, 5)
            w.bits(k - 4, 4)
            for s in ORDER[:k]:
                w.bits(clen[s], 3)
            cc = codes(clen)
            for s, v, e in r:
                w.code(cc[s])
                w.bits(v, e)
        lc = codes(llen)
        dc = codes(dlen)
        for t in items:
            if isinstance(t, tuple):
                (s, v, e), (ds, dv, de) = t
                w.code(lc[s])
                w.bits(v, e)
                w.code(dc[ds])
                w.bits(dv, de)
            else:
                w.code(lc[t])
        w.code(lc[256])
    return w.bytes(), bytes(out[start:])


# --- LZX

SLOTS = {15: 30, 16: 32, 17: 34, 18: 36, 19: 38, 20: 42, 21: 50}
POS = []
for s in range(50):
    e = min(17, max(0, s // 2 - 1))
    POS.append((POS[-1][0] + (1 << POS[-1][1]) if POS else 0, e))
FRAME = 32768


def lzx_tree(rng, w, old, new):
    """Write the lengths new over old."""
    items = []
    i = 0
    while i < len(new):
        run = 1
        while i + run < len(new) and new[i + run] == new[i]:
            run += 1
        d = (old[i] - new[i]) % 17
        if new[i] == 0 and run >= 20 and rng.random() < .95:
            n = min(run, rng.choice([51, 51, rng.randint(20, 51)]))
            items.append((18, n - 20, 5, None))
            i += n
        elif new[i] == 0 and run >= 4 and rng.random() < .9:
            n = min(run, 19, rng.choice([19, rng.randint(4, 19)]))
            items.append((17, n - 4, 4, None))
            i += n
        elif run >= 4 and rng.random() < .9:
            n = min(run, rng.choice([4, 5]))
            items.append((19, n - 4, 1, d))
            i += n
        else:
            items.append((d, 0, 0, None))
            i += 1
    used = {x[0] for x in items} | {x[3] for x in items if x[3] is not None}
    pre = lengths(rng, used, 20, 15, 2)
    for k in pre:
        w.bits(k, 4)
    c = codes(pre)
    for s, v, e, d in items:
        w.code(c[s])
        w.bits(v, e)
        if d is not None:
            w.code(c[d])


def e8_decode(data, filesize, started_at):
    """The jump translation of a decoder working frame by frame; started_at: position from which it is done, or None."""
    data = bytearray(data)
    if not filesize or started_at is None:
        return bytes(data)
    for f in range(0, len(data), FRAME):
        size = min(FRAME, len(data) - f)
        if size <= 10 or f + size <= started_at:
            continue
        i = f
        while i < f + size - 10:
            if data[i] != 0xe8:
                i += 1
                continue
            a = struct.unpack_from("<i", data, i + 1)[0]
            if -i <= a < filesize:
                struct.pack_into("<i", data, i + 1, a - i if a >= 0 else a + filesize)
            i += 5
    return bytes(data)


def lzx(rng, level, blocks, filesize):
    """LZX stream of random blocks [(kind, count, alphabet)]: (data, content, sizes of the compressed frames)."""
    w = LZXBits()
    if filesize is None:
        w.bits(0, 1)
    else:
        w.bits(1, 1)
        w.bits(filesize, 32)
    out = bytearray()
    r = [1, 1, 1]
    nmain = 8 * SLOTS[level]
    omain = [0] * 256
    orest = [0] * nmain
    olen = [0] * 249
    started = None
    window = 1 << level
    frames = []

    def boundary():
        if len(out) % FRAME == 0 and out:
            w.align()
            frames.append(w.size() // 8)

    for kind, count, alphabet in blocks:
        begin = len(out)
        if kind == 3:
            part = bytes(rng.choice(alphabet) for _ in range(count)) or b"x"
            w.bits(3, 3)
            w.bits(len(part), 24)
            if not w.align():
                w.bits(0, 16)
            r = [rng.randint(1, min(window - 3, len(out) + len(part))) for _ in range(3)]
            w.raw(struct.pack("<III", *r))
            if started is None:
                started = begin
            pos = w.size() // 8
            w.raw(part)
            for i, c in enumerate(part):
                out.append(c)
                if len(out) % FRAME == 0:
                    frames.append(pos + i + 1)
            continue
        rr = list(r)
        toks = []
        for _ in range(count):
            room = FRAME - len(out) % FRAME
            if not out or room < 2 or rng.random() < .5:
                c = rng.choice(alphabet)
                toks.append(c)
                out.append(c)
                continue
            m = min(window - 3, len(out))
            k = rng.random()
            slot = None
            if k < .4:
                slot = rng.randrange(3)
                if rr[slot] > m:
                    slot = None
            if slot is not None:
                d = rr[slot]
                rr[0], rr[slot] = rr[slot], rr[0]
            else:
                d = rng.randint(1, m) if k < .6 else rng.randint(1, min(m, 8)) if k < .8 else m
                rr = [d] + rr[:2]
            n = rng.randint(2, 12) if rng.random() < .6 else rng.choice([257, 256, 9, 8, rng.randint(2, 257)])
            n = min(n, room)
            if slot is None:
                f = d + 2
                ps = max(s for s in range(SLOTS[level]) if POS[s][0] <= f)
                ps = (ps, f - POS[ps][0], POS[ps][1])
            else:
                ps = (slot, 0, 0)
            toks.append((n, ps))
            expand(out, n, d)
        r = rr
        if not toks:
            c = rng.choice(alphabet)
            toks.append(c)
            out.append(c)
        main = set()
        lens = set()
        aligned = set()
        for t in toks:
            if isinstance(t, tuple):
                main.add(256 + 8 * t[1][0] + min(7, t[0] - 2))
                if t[0] >= 9:
                    lens.add(t[0] - 9)
                if kind == 2 and t[1][2] >= 3:
                    aligned.add(t[1][1] & 7)
            else:
                main.add(t)
        w.bits(kind, 3)
        w.bits(len(out) - begin, 24)
        alen = None
        if kind == 2:
            alen = lengths(rng, aligned, 8, 7)
            for k in alen:
                w.bits(k, 3)
        ml = lengths(rng, main, 256 + nmain, 16, 3)
        ll = lengths(rng, lens, 249, 16) if lens or rng.random() < .5 else [0] * 249
        lzx_tree(rng, w, omain, ml[:256])
        lzx_tree(rng, w, orest, ml[256:])
        lzx_tree(rng, w, olen, ll)
        omain, orest, olen = ml[:256], ml[256:], ll
        if ml[0xe8] and started is None:
            started = begin
        mc, lc = codes(ml), codes(ll) if max(ll) else {}
        ac = codes(alen) if alen else None
        done = begin
        for t in toks:
            if done % FRAME == 0 and done > begin:
                w.align()
                frames.append(w.size() // 8)
            if not isinstance(t, tuple):
                w.code(mc[t])
                done += 1
                continue
            n, (s, v, e) = t
            w.code(mc[256 + 8 * s + min(7, n - 2)])
            if n >= 9:
                w.code(lc[n - 9])
            if kind == 2 and e >= 3:
                w.bits(v >> 3, e - 3)
                w.code(ac[v & 7])
            else:
                w.bits(v, e)
            done += n
        boundary()
    data = w.bytes()
    if not frames or frames[-1] != len(data):
        if len(out) % FRAME:
            frames.append(len(data))
        else:
            frames[-1] = len(data)
    return data, e8_decode(out, filesize, started), frames
