"""Builds SUP streams from segments.  Knows how to write the format, not how to read it."""
import random


def u16(v):
    return [(v >> 8) & 255, v & 255]


def u24(v):
    return [(v >> 16) & 255, (v >> 8) & 255, v & 255]


def u32(v):
    return u16(v >> 16) + u16(v & 0xffff)


PDS, ODS, PCS, WDS, END = 0x14, 0x15, 0x16, 0x17, 0x80


def seg(pts, kind, payload=(), size=None, dts=0):
    n = len(payload) if size is None else size
    return [0x50, 0x47] + u32(pts) + u32(dts) + [kind] + u16(n) + list(payload)


def pds(pts, entries, pid=0, ver=0, rnd=None, **kw):
    b = [pid, ver]
    for (i, l, a) in entries:
        cr, cb = (rnd.randrange(256), rnd.randrange(256)) if rnd else (128, 128)
        b += [i, l, cr, cb, a]
    return seg(pts, PDS, b, **kw)


def ods_one(pts, w, h, data, oid=0, ver=0):
    return seg(pts, ODS, u16(oid) + [ver, 0xC0] + u24(len(data) + 4) + u16(w) + u16(h) + data)


def ods_first(pts, w, h, data, cut, oid=0, ver=0):
    return seg(pts, ODS, u16(oid) + [ver, 0x80] + u24(len(data) + 4) + u16(w) + u16(h) + data[:cut])


def ods_last(pts, data, cut, oid=0, ver=0):
    return seg(pts, ODS, u16(oid) + [ver, 0x40] + data[cut:])


# ---- run-length data
def enc_run(c, n, form):
    """One code for n pixels of colour c; `form`: single, short, long (as far as they can express it)."""
    if form == "single" and n == 1 and c != 0:
        return [c]
    if form != "long" and n < 64:
        return [0, n] if c == 0 else [0, 0x80 | n, c]
    if c == 0:
        return [0, 0x40 | (n >> 8), n & 255]
    return [0, 0xC0 | (n >> 8), n & 255, c]


def rnd_rows(rnd, w, h, colours):
    """Encoded rows: exactly w pixels per row, in random run forms."""
    out = []
    for y in range(h):
        left = w
        while left:
            n = min(left, rnd.choice([1, 1, 2, 3, 62, 63, 64, 65, 255, 256, 1000, w, left]))
            c = rnd.choice(colours)
            form = rnd.choice(["single", "single", "short", "long"])
            if c == 0 and rnd.random() < .3:
                # colour 0 written with the form "of any colour"
                out += [0, 0x80 | n, 0] if n < 64 else [0, 0xC0 | (n >> 8), n & 255, 0]
            else:
                out += enc_run(c, n, form)
            left -= n
        out += [0, 0] if rnd.random() < .9 else []
    return out


def rnd_palette(rnd, colours):
    ids = list(colours)
    rnd.shuffle(ids)
    if ids and rnd.random() < .3:
        ids = ids[:rnd.randrange(len(ids) + 1)]      # gaps
    if rnd.random() < .1:                            # all alike
        l, a = rnd.choice([0, 16, 235, 255]), rnd.choice([0, 0, 255])
        return [(i, l, a) for i in ids]
    return [(i, rnd.choice([0, 1, 254, 255, rnd.randrange(256)]), rnd.choice([0, 1, 254, 255, rnd.randrange(256)]))
            for i in ids]


def rnd_pts(rnd):
    return rnd.choice([0, 1, 89, 90, 91, 179, 180, 44999, 45000, 65535, 65536, 0x7fffffff, 0x80000000,
                       0xfffffffe, 0xffffffff, rnd.randrange(2 ** 32), rnd.randrange(2 ** 32),
                       rnd.randrange(2 ** 20) * 90, rnd.randrange(2 ** 16) * 65536 + rnd.choice([0, 15, 16, 89, 90, 65535])])


def deceptive_image(rnd):
    """Rows of pixels that are, with the line end, a complete segment without content."""
    h = rnd.choice([1, 2, 3])
    kind = rnd.choice([END, END, WDS, ODS])
    row = [0x50, 0x47] + [rnd.randrange(1, 256) for _ in range(8)] + [kind]
    return len(row), h, (row + [0, 0]) * h, sorted(set(row))


def rnd_image(rnd, big=False):
    if not big and rnd.random() < .06:
        return deceptive_image(rnd)
    w = rnd.choice([1, 1, 2, 3, 5, 8, 63, 64, 65, 130]) if not big else rnd.choice([300, 500, 1000])
    h = rnd.choice([1, 1, 2, 3, 4, 7]) if not big else rnd.choice([20, 50])
    colours = rnd.sample(range(256), rnd.choice([1, 2, 3, 5, 8]))
    if rnd.random() < .4:
        colours.append(0)
    return w, h, rnd_rows(rnd, w, h, colours), colours


def composition(rnd):
    """The content of a composition segment as discs have it."""
    n = rnd.choice([0, 0, 1, 1, 2])
    b = u16(rnd.choice([1920, 1280, 720])) + u16(rnd.choice([1080, 720, 480])) + [0x10] + u16(rnd.randrange(500))
    b += [rnd.choice([0, 0x40, 0x80, 0xC0]), rnd.choice([0, 0, 0x80]), rnd.randrange(3), n]
    for k in range(n):
        crop = rnd.random() < .3
        b += u16(k) + [k, rnd.choice([0, 0x40, 0x80, 0xC0]) if crop else rnd.choice([0, 0x40])] + u16(rnd.randrange(1900)) + u16(rnd.randrange(1000))
        if crop:
            b += u16(0) + u16(0) + u16(rnd.randrange(1, 60)) + u16(rnd.randrange(1, 60))
    return b


def window(rnd):
    n = rnd.choice([0, 1, 1, 2])
    return [n] + [x for k in range(n) for x in [k] + u16(rnd.randrange(1900)) + u16(rnd.randrange(1000)) + u16(rnd.randrange(1900)) + u16(rnd.randrange(1000))]


def filler(rnd, pts):
    """Segments that never matter: compositions and windows of any content."""
    out = []
    for _ in range(rnd.choice([0, 0, 1, 1, 2])):
        if rnd.random() < .4:
            k = rnd.choice([PCS, PCS, WDS])
            out += seg(pts, k, composition(rnd) if k == PCS else window(rnd), dts=rnd.choice([0, 0, pts]))
            continue
        n = rnd.choice([0, 1, 11, 19, 10, rnd.randrange(40)])
        body = [rnd.randrange(256) for _ in range(n)]
        if n >= 13 and rnd.random() < .4:      # looks like an end marker
            body[:13] = seg(rnd_pts(rnd), END)
        out += seg(rnd_pts(rnd) if rnd.random() < .3 else pts, rnd.choice([PCS, WDS]), body,
                   dts=rnd.choice([0, rnd.randrange(2 ** 32)]))
    return out


def numbers(rnd):
    """The number and the version of an object."""
    return rnd.choice([0, 1, 1, 0xffff, rnd.randrange(65536)]), rnd.choice([0, 1, 64, 127, 128, 192, 255, 255, rnd.randrange(256)])


def obj_segments(rnd, pts, w, h, data, split=None, between=None):
    oid, ver = numbers(rnd)
    low, high = max(0, len(data) - 65531), min(len(data), 65524)    # what fits into the parts
    assert low <= high
    if split is None:
        split = rnd.random() < .4
    if not split and len(data) <= 65524:
        return ods_one(pts, w, h, data, oid, ver)
    cut = rnd.choice([low, high, rnd.randrange(low, high + 1), rnd.randrange(low, high + 1)])
    mid = filler(rnd, pts) if between is None else between
    return ods_first(pts, w, h, data, cut, oid, ver) + mid + ods_last(pts, data, cut, oid, ver)


def caption(rnd, t0, t1, objects=None, split=None, big=False):
    """The two display sets of a good caption."""
    b = filler(rnd, t0)
    n = objects or rnd.choice([1, 1, 1, 2, 3])
    early = rnd.randrange(n) if rnd.random() < .12 else -1      # an object of the second display set
    for k in range(n):
        w, h, data, colours = rnd_image(rnd, big)
        if rnd.random() < .15:      # a palette that is replaced
            b += pds(t0, rnd_palette(rnd, colours), rnd.choice([0, 1, rnd.randrange(256)]), rnd.choice([0, 1, 255, rnd.randrange(256)]), rnd)
        b += filler(rnd, t0)
        b += pds(t0, rnd_palette(rnd, colours), rnd.choice([0, 0, 1, rnd.randrange(256)]), rnd.choice([0, 0, 1, rnd.randrange(256)]), rnd)
        b += filler(rnd, t0)
        if k == early and len(data) < 65000:
            if rnd.random() < .5:
                b += seg(t0, END) + filler(rnd, t0) + obj_segments(rnd, t0, w, h, data, split)
            else:
                b += obj_segments(rnd, t0, w, h, data, True, filler(rnd, t0) + seg(t0, END) + filler(rnd, t0))
        else:
            b += obj_segments(rnd, t0, w, h, data, split)
    b += filler(rnd, t0)
    if early < 0:
        b += seg(t0, END, dts=rnd.choice([0, rnd.randrange(2 ** 32)]))
    b += filler(rnd, t1)
    if rnd.random() < .2:           # palette change in the clearing set
        b += pds(t1, rnd_palette(rnd, [0, 1]), rnd=rnd)
    if rnd.random() < .15:          # an object in the clearing set
        w, h, data, colours = rnd_image(rnd, big)
        b += pds(t1, rnd_palette(rnd, colours), rnd=rnd) + filler(rnd, t1) + obj_segments(rnd, t1, w, h, data, split)
    b += seg(t1, END)
    return b


def lone_set(rnd):
    t = rnd_pts(rnd)
    b = filler(rnd, t)
    if rnd.random() < .5:
        w, h, data, colours = rnd_image(rnd)
        b += pds(t, rnd_palette(rnd, colours)) + obj_segments(rnd, t, w, h, data)
    return b + (seg(t, END) if rnd.random() < .8 else [])


def times(rnd):
    a = rnd_pts(rnd)
    b = rnd.choice([a, (a + rnd.randrange(100000)) % 2 ** 32, rnd_pts(rnd)])
    return a, b


def stream(rnd, n=None, **kw):
    b = []
    c = []
    for _ in range(rnd.choice([0, 1, 1, 2, 3, 5]) if n is None else n):
        if not c or rnd.random() > .08:     # now and then the same caption again
            c = caption(rnd, *times(rnd), **kw)
        b += c
    if rnd.random() < .25:
        b += lone_set(rnd)
    return b


def sized_ends(rnd, b):
    """End segments that claim a size; they have no data all the same."""
    out, i = [], 0
    while i < len(b):
        n = b[i + 11] << 8 | b[i + 12]
        q = b[i:i + 13 + n]
        if q[10] == END and rnd.random() < .5:
            k = rnd.choice([1, 2, 12, 13, 13, 26, 300, 65535])
            q = q[:11] + u16(k)
        out += q
        i += 13 + n
    return out


# ---- spoilt captions
def bad_pds(rnd, pts):
    n = rnd.choice([0, 1, 3, 4, 5, 6, 8, 9, 11, 256, 1001])
    if n >= 2 and (n - 2) % 5 == 0:
        n += 1
    return seg(pts, PDS, [rnd.randrange(256) for _ in range(n)])


def bad_ods(rnd, pts, in_part=False):
    """An object segment that cannot be used where it stands (in_part: after a first part)."""
    w, h, data, _ = rnd_image(rnd)
    oid, ver = numbers(rnd)
    head = u16(oid) + [ver]
    k = rnd.choice(["short", "flag", "len+", "len-", "lonelast", "empty"])
    if in_part:
        k = rnd.choice(["again", "fits", "flag", "lastlen", "short", "empty"])
    if k == "empty":
        return seg(pts, ODS, [])
    if k == "short":
        n = rnd.choice([1, 2, 3]) if in_part else rnd.choice([1, 3, 4, 5, 6, 7, 8, 10])
        return seg(pts, ODS, (head + [rnd.choice([0x80, 0xC0])] + [0, 0, 4, 0, 1, 0, 1])[:n])
    if k == "flag":
        f = rnd.choice([0, 1, 0x20, 0x41, 0x81, 0xC1, 0xff])
        return seg(pts, ODS, head + [f] + u24(len(data) + 4) + u16(w) + u16(h) + data)
    if k == "len+":
        d = rnd.choice([1, 2, 300])
        return seg(pts, ODS, head + [0xC0] + u24(len(data) + 4 + d) + u16(w) + u16(h) + data)
    if k == "len-":
        d = rnd.choice([1, 2, len(data) + 4, len(data) + 3, len(data) + 1])
        return seg(pts, ODS, head + [rnd.choice([0xC0, 0x80])] + u24(max(0, len(data) + 4 - d)) + u16(w) + u16(h) + data)
    if k == "lonelast":
        return seg(pts, ODS, head + [0x40] + data)
    if k == "fits":
        # as long as the part that is missing, but not its last one
        return seg(pts, ODS, head + [rnd.choice([0x80, 0xC0])] + [1] * 5)
    if k == "again":
        return ods_first(pts, w, h, data, len(data) // 2, oid, ver)
    if k == "lastlen":
        # used after ods_first(.., cut=0) of an object that needs exactly 5 bytes
        n = rnd.choice([0, 1, 4, 6, 300])
        return seg(pts, ODS, head + [0x40] + [1] * n)
    raise AssertionError(k)


def spoilt(rnd, t0, t1, kind):
    b = filler(rnd, t0)
    w, h, data, colours = rnd_image(rnd)
    pal = pds(t0, rnd_palette(rnd, colours))
    obj = obj_segments(rnd, t0, w, h, data)
    close = filler(rnd, t1) + seg(t1, END)
    if kind == "noobject":
        b += (pal if rnd.random() < .5 else []) + filler(rnd, t0)
    elif kind == "nopalette":
        b += obj + (pal if rnd.random() < .3 else [])
    elif kind == "secondnopalette":
        b += pal + obj + filler(rnd, t0) + obj_segments(rnd, t0, w, h, data)
    elif kind == "badpalette":
        x = bad_pds(rnd, t0)
        b += rnd.choice([x + obj, x + pal + obj, pal + x + obj, pal + obj + x])
    elif kind == "badobject":
        x = bad_ods(rnd, t0)
        b += rnd.choice([pal + x, x + pal + obj, pal + obj + x, pal + x + obj])
    elif kind == "badpart":
        first = ods_first(t0, 5, 1, [1] * 5, 0)
        x = bad_ods(rnd, t0, True)
        b += pal + first + filler(rnd, t0) + x + rnd.choice([[], pal + obj])
    elif kind == "wholefits":
        # a whole object that is as long as the missing part of the one before
        x = ods_one(t0, w, h, data, 0, 0)
        b += pal + ods_first(t0, 20, 3, [1] * (len(data) + 7), 0) + filler(rnd, t0) + x + rnd.choice([[], pal + obj])
    elif kind == "lonefirst":
        b += pal + ods_first(t0, w, h, data, len(data) // 2)
    elif kind == "badclose":
        b += pal + obj
        close = filler(rnd, t1) + rnd.choice([bad_pds, bad_ods])(rnd, t1) + filler(rnd, t1) + seg(t1, END)
    else:
        raise AssertionError(kind)
    return b + filler(rnd, t0) + seg(t0, END) + close


SPOILT = ["noobject", "nopalette", "secondnopalette", "badpalette", "badobject", "badpart", "wholefits", "lonefirst", "badclose"]


# ---- arbitrary streams
def mutate(rnd, b):
    b = list(b)
    for _ in range(rnd.choice([1, 1, 2, 4, 10])):
        if not b:
            break
        i = rnd.randrange(len(b))
        k = rnd.randrange(7)
        if k == 0:
            b[i] = rnd.choice([0, 1, 2, 0x14, 0x15, 0x40, 0x80, 0xC0, 0xff, rnd.randrange(256)])
        elif k == 1:
            b[i] ^= 1 << rnd.randrange(8)
        elif k == 2:
            del b[i:i + rnd.choice([1, 2, 5, 13, 40])]
        elif k == 3:
            b[i:i] = [rnd.randrange(256) for _ in range(rnd.choice([1, 2, 13]))]
        elif k == 4:
            b = b[:i]
        elif k == 5:
            j = rnd.randrange(len(b))
            b[i:i] = b[j:j + rnd.choice([5, 13, 60])]
        else:
            b[i:i + 2] = rnd.choice([[0, 0], [255, 255], [0, 1], [1, 0]])
    return b


def garbage_rle(rnd):
    n = rnd.choice([0, 1, 2, 3, 4, 6, 10, 30])
    return [rnd.choice([0, 0, 0, 1, 0x40, 0x7f, 0x80, 0xC0, 0xff, 63, 64, rnd.randrange(256)]) for _ in range(n)]


def garbage_image_stream(rnd):
    """A well-formed stream whose object data and sizes are arbitrary."""
    w, h = rnd.choice([0, 1, 2, 3, 10, 100]), rnd.choice([0, 1, 2, 3, 10])
    data = garbage_rle(rnd)
    t0, t1 = times(rnd)
    return (pds(t0, rnd_palette(rnd, rnd.sample(range(256), 4))) + obj_segments(rnd, t0, w, h, data)
            + seg(t0, END) + seg(t1, END))
