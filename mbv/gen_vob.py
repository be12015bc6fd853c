"""Generators of VobSub sub files.  The byte layout is written here independently of the reader."""

NEEDLE = [0, 0, 1, 0xBA]


# ---------------------------------------------------------------- program stream
def clockbits(v, tag, tagbits, ext=None):
    """33-bit clock with marker bits after a tag; with `ext` the 9-bit extension."""
    bits = [(tag, tagbits), (v >> 30 & 7, 3), (1, 1), (v >> 15 & 0x7FFF, 15), (1, 1), (v & 0x7FFF, 15), (1, 1)]
    if ext is not None:
        bits += [(ext, 9), (1, 1)]
    return bits


def pack_bits(bits):
    n = acc = 0
    for v, k in bits:
        acc = acc << k | v & ((1 << k) - 1)
        n += k
    assert n % 8 == 0
    return list(acc.to_bytes(n // 8, "big"))


def pack_header(scr=0, ext=0, rate=1, stuffing=0, reserved=31, fill=0xFF):
    return NEEDLE + pack_bits(clockbits(scr, 1, 2, ext) + [(rate, 22), (3, 2), (reserved, 5), (stuffing, 3)]) + [fill] * stuffing


def pts_bytes(v, tag=2):
    return pack_bits(clockbits(v, tag, 4))


def pes(data, pts=None, dts=None, sid=0x20, flags1=0x81, flags2=0, extra=(), length=None):
    hd = []
    f = flags2 & 0x3F
    if pts is not None and dts is not None:
        f |= 0xC0
        hd = pts_bytes(pts, 3) + pts_bytes(dts, 1)
    elif pts is not None:
        f |= 0x80
        hd = pts_bytes(pts)
    hd = hd + list(extra)
    body = [flags1, f, len(hd)] + hd + [sid] + list(data)
    n = len(body) if length is None else length
    return [0, 0, 1, 0xBD, n >> 8 & 255, n & 255] + body


def packet(data, pts=None, **kw):
    ph = {k: kw.pop(k) for k in ("scr", "ext", "rate", "stuffing", "reserved", "fill") if k in kw}
    return pack_header(**ph) + pes(data, pts, **kw)


def rnd_packet(r, data, pts=None, sid=0x20):
    kw = {}
    if r.random() < .6:
        x = lambda n: r.choice([0, (1 << n) - 1, 1, r.getrandbits(n), r.getrandbits(n), r.getrandbits(n)])
        kw.update(scr=x(33), ext=x(9), rate=x(22), reserved=x(5))
    if r.random() < .4:
        kw.update(stuffing=r.randrange(8), fill=r.randrange(256))
    if r.random() < .5:
        kw.update(flags1=0x80 | r.getrandbits(6), flags2=r.getrandbits(6))
    if r.random() < .4:
        kw.update(extra=[r.randrange(256) for _ in range(r.choice([1, 2, 5, 17]))])
    if pts is not None and r.random() < .3:
        kw.update(dts=r.getrandbits(33))
    return packet(data, pts, sid=sid, **kw)


def rnd_pts(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 89, 90, 91, 2**32, 2**32 - 1, 2**33 - 1, 2**30, 2**30 - 1, 2**15, 2**15 - 1, 90 * 10**6, 2**33 - 89])
    if k == 1:
        return 90 * r.randrange(2**33 // 90)
    if k == 2:
        return 90 * r.randrange(2**33 // 90) + r.choice([1, 89])
    if k == 3:
        return 9000 * r.randrange(2**33 // 9000)
    if k == 4:
        return (1 << r.randrange(33)) % 2**33
    return r.getrandbits(33)


# ---------------------------------------------------------------- bitmap
def code(n, v, wide=False):
    """Half bytes of a run of n pixels (0: to the end of the row)."""
    if n == 0:
        return [0, 0, 0, v]
    x = n << 2 | v
    if wide or n > 63:
        return [x >> 12 & 15, x >> 8 & 15, x >> 4 & 15, x & 15]
    if n < 4:
        return [x]
    if n < 16:
        return [x >> 4, x & 15]
    return [x >> 8, x >> 4 & 15, x & 15]


def rnd_row(r, w, style=None):
    nib = []
    x = 0
    style = style or r.choice(["mix", "eol", "ones", "wide", "edge"])
    if style == "blank":
        if r.random() < .6:
            return [0, r.choice([0, 0, 0, 1, 3])]
        style = "eol"
    while x < w:
        left = w - x
        v = r.randrange(4)
        if style == "eol" and r.random() < .4:
            n = 0
        elif style == "ones":
            n = min(left, r.choice([1, 1, 2, 3]))
        elif style == "edge":
            n = min(left, r.choice([1, 3, 4, 15, 16, 63, 64, 255]))
        else:
            n = min(left, r.randrange(1, 256)) if r.random() < .5 else min(left, r.randrange(1, 8))
            if n == left and left > 255:
                n = 0
        n = min(n, 255)
        if r.random() < .1 and left > 0 and style == "mix":
            n = 0
        nib += code(n, v, wide=(style == "wide" and n > 0))
        x = w if n == 0 else x + n
    if len(nib) % 2:
        nib.append(r.choice([0, 0, r.randrange(16)]))
    return [nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2)]


def rnd_bitmap(r, w, h, style=None):
    rows = [[], []]
    for y in range(h):
        rows[y % 2] += rnd_row(r, w, style)
    return rows


# ---------------------------------------------------------------- control sequences
def u16(v):
    return [v >> 8 & 255, v & 255]


def nibbles(q):
    return [q[0] << 4 | q[1], q[2] << 4 | q[3]]


def area_cmd(x1, x2, y1, y2):
    return [5, x1 >> 4 & 255, (x1 & 15) << 4 | x2 >> 8 & 15, x2 & 255, y1 >> 4 & 255, (y1 & 15) << 4 | y2 >> 8 & 15, y2 & 255]


def raw_sub(bitmap, seqs, gap=(), lead=(), links=None, first=None, tail=()):
    """bitmap: bytes at offset 4; seqs: list of (date, command bytes incl. end).  links: None (well formed)
    or a function (offsets, i) -> link.  Returns the raw subtitle."""
    off = 4 + len(lead) + len(bitmap)
    offs = []
    o = off
    for i, (_, c) in enumerate(seqs):
        offs.append(o)
        o += 4 + len(c) + (len(gap) if i + 1 < len(seqs) else 0)
    out = list(lead) + list(bitmap)
    for i, (date, c) in enumerate(seqs):
        nxt = offs[i + 1] if i + 1 < len(seqs) else offs[i]
        if links:
            nxt = links(offs, i)
        out += u16(date) + u16(nxt) + list(c)
        if i + 1 < len(seqs):
            out += list(gap)
    out += list(tail)
    total = len(out) + 4
    return u16(total) + u16(offs[0] if first is None else first) + out


UNKNOWN = [[7, 1, 2, 3], [8], [0x42, 5, 0], [0xFE]]


def rnd_quad(r):
    """Four nibbles of a palette or alpha command."""
    k = r.randrange(6)
    if k == 0:
        return nibbles([r.choice([0, 0, 15, r.randrange(16)])] * 4)
    if k == 1:
        return nibbles([r.choice([0, 15]) for _ in range(4)])
    return nibbles([r.randrange(16) for _ in range(4)])


def rnd_area(r, big=False):
    w = r.choice([2, 2, 3, 4, 5, 8, 9, 17, 40])
    h = r.choice([2, 2, 3, 4, 5, 7])
    if big:
        w, h = r.choice([(720, 6), (4096, 2), (300, 20), (2, 4096), (4095, 3), (64, 255)])
    x1 = r.choice([0, 1, 15, 16, 255, 256, 4096 - w, r.randrange(4097 - w)])
    y1 = r.choice([0, 1, 15, 16, 255, 256, 4096 - h, r.randrange(4097 - h)])
    return min(x1, 4096 - w), min(y1, 4096 - h), w, h


def decoy(r):
    """What looks like a packet (of a whole subtitle) but is content."""
    seqs = [(0, [1, 3, 0x11, 0x22, 4, 0x33, 0x44] + area_cmd(7, 8, 9, 10) + [6, 0, 4, 0, 6, 255])]
    sid = r.choice([0x20, 0x20, 0x21])
    p = rnd_packet(r, raw_sub([0, 1, 0, 2], seqs), rnd_pts(r), sid) if r.random() < .7 else pack_header() + [0, 0, 1, 0xBE, 0, 3]
    return p[:len(p) if r.random() < .7 else r.randrange(len(p))]


def rnd_sub(r, kind="good", big=False, omit=()):
    """A raw subtitle of a kind."""
    x, y, w, h = rnd_area(r, big)
    if kind == "cutrows":
        h = r.choice([3, 4, 5, 6, 9, 20])
        y = min(y, 4096 - h)
    even, odd = rnd_bitmap(r, w, h)
    lead = [r.randrange(256) for _ in range(r.choice([0, 0, 0, 1, 6]))]
    if r.random() < .12:
        lead = decoy(r)
    share = r.random() < .1
    bitmap = even if share else even + odd
    o0 = 4 + len(lead)
    o1 = o0 if share else o0 + len(even)
    if share:
        # Both parities read the same rows.
        bitmap = rnd_bitmap(r, w, 2 * h, "eol")[0]
    pad = [r.randrange(256) for _ in range(r.choice([0, 0, 0, 2]))]
    if r.random() < .06:
        pad = decoy(r)
    bitmap = bitmap + pad
    ctl = 4 + len(lead) + len(bitmap)
    good = {
        "start": [1], "pal": [3] + rnd_quad(r),
        "al": [4] + rnd_quad(r),
        "area": area_cmd(x, x + w - 1, y, y + h - 1),
        "offs": [6] + u16(o0) + u16(o1), "stop": [2],
    }
    keys = ["start", "pal", "al", "area", "offs"]
    if r.random() < .6:
        r.shuffle(keys)
    keys = [k for k in keys if k not in omit]
    cmds = [good[k] for k in keys]
    stop = r.random() < .7
    if kind == "zeroarea":
        cmds[keys.index("area")] = r.choice([area_cmd(x + 1, x + 1, y, y + 1), area_cmd(x, x + 1, y + 1, y + 1), area_cmd(x + 1, x, y, y + 1)])
    if kind == "badoffs":
        a, b = r.choice([(o1 + 1, o0), (o0, ctl + 3), (ctl + 3, ctl + 4), (65535, 65535), (ctl + 2, ctl + 1)])
        cmds[keys.index("offs")] = [6] + u16(a) + u16(b)
    if kind == "longrow":
        q = [0, 0, 0, 0]
        n = w + r.choice([1, 2, 50])
        # every row one run longer than the row
        nib = []
        while n > 255:
            nib += code(255, 1)
            n -= 255
        nib += code(n, 2)
        if len(nib) % 2:
            nib.append(0)
        row = [nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2)]
        at = r.choice(["first", "last"])
        if at == "first":
            bitmap = (row + bitmap)[:]
            o1n = o1 if not share else o0
            bitmap = row + even + odd
            cmds[keys.index("offs")] = [6] + u16(o0) + u16(o0 + len(row) + len(even))
        else:
            bitmap = even + row
            cmds[keys.index("offs")] = [6] + u16(o0) + u16(o0 + len(even))
        del q
    if kind == "shortrows":
        # the odd rows begin where the data ends
        bitmap = even
        end = 4 + len(lead) + len(bitmap) + 2
        a = r.choice([end, end - 1]) if w > 255 or True else end
        bitmap = even
        cmds[keys.index("offs")] = [6] + u16(o0) + u16(end)
        del a
    if kind == "cutrows":
        # the rows end before the area does: at the last row, or at any of them
        whole = even if share else even + odd
        if share:
            whole = bitmap
        n = r.choice([1, 1, 2, 3, r.randrange(1, len(whole) + 1)])
        bitmap = whole[:max(len(whole) - n, 0 if share else len(even))]
    extra = []
    if kind == "good" or r.random() < .3:
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            k = r.randrange(7)
            if k == 0:
                extra.append([0])
            elif k == 1:
                extra.append([1])
            elif k == 2:
                extra.append([3] + rnd_quad(r))
            elif k == 3:
                extra.append([4] + rnd_quad(r))
            elif k == 4:
                extra.append(area_cmd(x, x + w - 1, y, y + h - 1) if r.random() < .5 else area_cmd(1, 3, 5, 7))
            elif k == 5 and not omit:
                extra.append([6] + u16(4) + u16(5))
            else:
                extra.append([2])
    if kind == "good" and r.random() < .12:
        # a command given twice, with the flag that forces before, between or behind
        k = r.choice(["al", "pal", "area"])
        if k == "area":
            extra.append(area_cmd(1, 3, 5, 7))
        else:
            n = {"al": 4, "pal": 3}[k]
            good[k] = [n] + r.choice([[0, 0], [0xFF, 0xFF], rnd_quad(r)])
            if k in keys:
                cmds[keys.index(k)] = good[k]
            extra.append([n] + r.choice([[0, 0], [0xFF, 0xFF], rnd_quad(r), rnd_quad(r)]))
        cmds.insert(r.randrange(len(cmds) + 1), [0])
    # Extras of a kind that counts once come later, offsets earlier.
    before = [e for e in extra if e[0] in (0, 6)]
    after = [e for e in extra if e[0] not in (6,)]
    if omit:
        before = [e for e in before if e[0] == 0]
        after = [e for e in after if e[0] in (0, 2)]
    seq = before + cmds + after
    if stop:
        seq.insert(r.randrange(len(seq) + 1), [2])
    nseq = r.choice([1, 1, 2, 2, 3, 4])
    cuts = sorted(r.randrange(len(seq) + 1) for _ in range(nseq - 1))
    parts, last = [], 0
    for c in cuts + [len(seq)]:
        parts.append(seq[last:c])
        last = c
    seqs = []
    for i, p in enumerate(parts):
        b = sum(p, [])
        if r.random() < .15:
            # an unknown command hides the rest of its sequence
            b = b + r.choice(UNKNOWN) + sum((r.choice([[1], [2], [3, 1, 2], [0]]) for _ in range(r.randrange(3))), [])
        date = r.choice([0, 0, 1, 100, 65535, r.randrange(65536)])
        seqs.append((date, b + [255]))
    gap = [r.randrange(256) for _ in range(r.choice([0, 0, 1, 5]) if kind != "cutrows" else 0)]
    links = first = None
    if kind == "backlink":
        links = lambda offs, i: offs[i + 1] if i + 1 < len(offs) else r.choice([0, offs[i] - 1, offs[0] if i else 0])
    if kind == "farlink":
        links = lambda offs, i: offs[i + 1] if i + 1 < len(offs) else r.choice([65535, offs[-1] + 400])
    if kind == "anylink":
        # also into the middle of sequences, to ends and into the bitmap
        def links(offs, i):
            k = r.randrange(6)
            if k < 3:
                return offs[min(i + 1, len(offs) - 1)] if k else offs[i]
            return min(65535, max(0, r.choice(offs) + r.choice([0, 0, 0, 1, 4, 5, -1, -4, 20])))
    if kind == "nofirst":
        first = r.choice([65535, ctl + 4000])
    if kind == "noend":
        d, b = seqs[-1]
        seqs[-1] = (d, [x for x in b[:-1] if x != 255])
    tail = [r.randrange(255) for _ in range(r.choice([0, 0, 1, 3]))] if kind not in ("noend",) else []
    raw = raw_sub(bitmap, seqs, gap, lead, links, first, tail)
    if kind == "tiny":
        n = r.choice([0, 1, 2, 3])
        raw = u16(n) + raw[2:r.choice([2, 3, 4, 20])]
    return raw


BAD = ["zeroarea", "badoffs", "longrow", "shortrows", "cutrows", "backlink", "anylink", "farlink", "nofirst", "noend", "tiny", "omit"]
ITEMS = ["start", "pal", "al", "area", "offs"]


def rnd_bad(r):
    k = r.choice(BAD)
    if k == "omit":
        return rnd_sub(r, "good", omit=r.sample(ITEMS, r.choice([1, 1, 1, 2, 3, 5])))
    return rnd_sub(r, k)


# ---------------------------------------------------------------- packetisation
def split(r, raw, parts=None):
    """Cut a raw subtitle in parts, the first of at least two bytes."""
    n = parts or r.choice([1, 1, 2, 3, 5])
    cuts = sorted(r.randrange(2, len(raw) + 1) for _ in range(n - 1))
    out, last = [], 0
    for c in cuts + [len(raw)]:
        out.append(raw[last:c])
        last = c
    return out


def no_needle(b):
    for i in range(len(b) - 3):
        if b[i:i + 4] == NEEDLE:
            b[i + 3] = 0xBB
    return b


def junk(r):
    k = r.randrange(8)
    if k == 7:      # the header of a pack that is cut off
        return rnd_packet(r, [1, 2], rnd_pts(r))[:r.randrange(4, 14)]
    if k == 6:      # the code that ends a program stream
        return [0, 0, 1, 0xB9]
    if k == 0:
        return [0] * r.choice([1, 2, 3, 50])
    if k == 1:
        # padding packet in its own pack
        n = r.choice([0, 1, 20])
        return pack_header(scr=r.getrandbits(33)) + [0, 0, 1, 0xBE] + u16(n) + [0xFF] * n
    if k == 2:
        # pack with damaged marker bits
        p = rnd_packet(r, [r.randrange(256) for _ in range(12)], rnd_pts(r))
        bit = r.choice([(4, 0x80), (4, 0x04), (6, 4), (8, 4), (9, 1), (12, 1), (12, 2), (4, 0x40)])
        p[bit[0]] ^= bit[1]
        return p[:4] + no_needle(p[4:])
    if k == 3:
        # private stream packet with a damaged header
        d = [r.randrange(256) for _ in range(8)]
        which = r.randrange(5)
        if which == 4:      # too short for its header
            p = pes(d, rnd_pts(r), length=r.choice([0, 1, 2, 3, 5, 8]))
        elif which == 0:
            p = pes(d, rnd_pts(r), flags1=r.choice([0x01, 0x41, 0xC1]))
        elif which == 1:
            p = pes(d, rnd_pts(r))
            p[7] = 0x40 | p[7] & 0x3F
        elif which == 2:
            p = pes(d, rnd_pts(r))
            p[9] ^= r.choice([1, 0x10, 0x20])
        else:
            p = pes(d, rnd_pts(r))
            p[8] = 200
        return pack_header() + no_needle(p)
    if k == 4:
        return no_needle([r.choice([0, 0, 1, 0xBA, 0xBD, r.randrange(256)]) for _ in range(r.choice([3, 10, 40]))]) + [0xFF]
    # system header / other stream in its own pack
    return pack_header(stuffing=r.randrange(8)) + [0, 0, 1, r.choice([0xBB, 0xE0, 0xC0, 0xBF])] + u16(9) + [r.randrange(255) for _ in range(9)]


def needle_free_cut(b):
    return b


def carry(r, raw, pts, sid=0x20, parts=None, noise=True):
    """Packets that carry a raw subtitle, with other things between them."""
    out = []
    sector = r.choice([256, 512, 2048]) if noise and r.random() < .15 else 0
    pieces = split(r, raw, parts)
    if r.random() < .06:        # bytes behind the end of the subtitle
        pieces[-1] = pieces[-1] + [r.choice([0, 255, r.randrange(256)]) for _ in range(r.choice([1, 2, 30]))]
    for i, d in enumerate(pieces):
        if i and noise:
            while r.random() < .35:
                if r.random() < .5:
                    out += junk(r)
                else:
                    other = rnd_sub(r) if r.random() < .5 else [r.randrange(256) for _ in range(r.choice([0, 1, 2, 9]))]
                    out += rnd_packet(r, other, r.choice([None, rnd_pts(r)]), sid=r.choice([x for x in (0x20, 0x21, 0x3F, 0x80, 0xFF, sid ^ 0x80, sid ^ 1) if x != sid]))
        p = pts if i == 0 else r.choice([None, None, rnd_pts(r)])
        q = rnd_packet(r, d, p, sid)
        if sector:
            # discs fill their sectors with a padding packet
            n = (-len(q) - 6) % sector
            q = q + [0, 0, 1, 0xBE] + u16(n) + [r.choice([0xFF, 0xFF, 0])] * n
        out += q
    return out


def stream(r, kinds=None, noise=True, big=False):
    out, raw = [], None
    for k in kinds or ["good"] * r.choice([1, 1, 2, 3]):
        while noise and r.random() < .3:
            out += junk(r)
        if raw is None or k != "good" or r.random() > .06:      # now and then the same subtitle again
            raw = rnd_sub(r, big=big) if k == "good" else rnd_bad(r)
        out += carry(r, raw, rnd_pts(r), r.choice([0x20, 0x20, 0x20, 0x20, 0x21, 0, 0x3F, 0x80, 0xFF, r.randrange(256)]), noise=noise)
        raw = raw if k == "good" else None
    if noise and r.random() < .3:
        out += junk(r)
    return out


def fat(r, n):
    """A subtitle with n bytes that no row needs."""
    seqs = [(0, [1, 3, 0x12, 0x34, 4, 0xFF, 0xFF] + area_cmd(0, 3, 0, 1) + [6, 0, 4, 0, 6, 255]), (r.randrange(1000), [2, 255])]
    return raw_sub([0, 1, 0, 2] + [r.randrange(256) for _ in range(n)], seqs)


def mutate(r, b):
    b = list(b)
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        if not b:
            return b
        k = r.randrange(6)
        i = r.randrange(len(b))
        if k == 0:
            b[i] = r.randrange(256)
        elif k == 1:
            b[i] = r.choice([0, 255, 1, 2, 3, 4, 5, 6, 0xBA, 0xBD])
        elif k == 2:
            del b[i:i + r.choice([1, 2, 8])]
        elif k == 3:
            b[i:i] = [r.randrange(256) for _ in range(r.choice([1, 2, 8]))]
        elif k == 4:
            b[i] ^= 1 << r.randrange(8)
        else:
            b = b[:i] if r.random() < .3 else b
    return b
