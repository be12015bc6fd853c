"""Properties of the VobSub reader and its images."""
from . import gen_vob as g
from .core import ToolError

TRACE_CFG = """SPECIFICATION TSpec
CONSTANT Data <- TData
CHECK_DEADLOCK FALSE
"""
IMG_CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"
ALL = ("same", "times", "ctl", "px", "errk")


def mc(ctx, family, alphabet, size, emit=True):
    cfg = f"""SPECIFICATION MSpec
CONSTANT Data <- MData
CONSTANT Family = "{family}"
CONSTANT Alphabet = {{{",".join('"%s"' % a for a in alphabet)}}}
CONSTANT Size = {size}
CONSTANT Emit = {"TRUE" if emit else "FALSE"}
INVARIANT ReturnsExpected
INVARIANT NothingMissing
INVARIANT WholeRows
PROPERTY Terminates
PROPERTY Forward
PROPERTY ChainForward
CHECK_DEADLOCK FALSE
"""
    return ctx.model("MCVob", cfg, name=f"MCVob/{family}/{alphabet}/{size}", workers=8, heap="6g")


def number(cases):
    for i, c in enumerate(cases):
        c["id"] = i
    return cases


def case(b, asp=ALL, **kw):
    return dict({"fam": "vob", "bytes": b, "asp": list(asp), "extra": 0, "render": 0}, **kw)


def traces(ctx, cases):
    res = ctx.run_cases(number(cases))
    ctx.sample(min(res, key=lambda r: abs(len(r["bytes"]) - 200)))
    ctx.judge("VobTrace", TRACE_CFG, res)
    return res


def same(exp, out, asp):
    if len(exp) != len(out):
        return False
    for x, o in zip(exp, out):
        if x["t"] != o["t"]:
            return False
        if x["t"] == "err" and "errk" in asp:
            if (o["k"] not in x["miss"]) if x["miss"] else o["k"].startswith("Miss"):
                return False
        if x["t"] == "sub":
            ok = [0, 1] if x["exact"] else [0]
            if "times" in asp and (x["s"] - o["s"] not in ok or x["e"] - o["e"] not in ok):
                return False
            if "ctl" in asp and any(x[k] != o[k] for k in ("x", "y", "w", "h", "pal", "al")):
                return False
            if "px" in asp and any(x[k] != o[k] for k in ("w", "h", "px")):
                return False
    return True


def replay(ctx, models, asp):
    cases, exps = [], []
    for m in models:
        if not m.msgs:
            raise ToolError(f"{m.name} printed no behaviour")
        for b in m.msgs:
            cases.append(case(b["bytes"], asp))
            exps.append(b["exp"])
    res = ctx.run_cases(number(cases))
    for r, e in zip(res, exps):
        if not same(e, r["out"], asp):
            ctx.violation(r, {"expected_by_specification": e})
    ctx.replayed += len(res)


def puffed(asp, before, pattern, after, n, **kw):
    """Bytes with a pattern that changes nothing there: VobSub sees two of them, the real code n more."""
    return case(before + pattern * 2 + after, asp, puff=[len(before), n, pattern], log=0, **kw)


def foreign(r, big=False):
    data = [r.randrange(256) for _ in range(r.choice([0, 1, 2, 30]) if not big else 2000)]
    return g.rnd_packet(r, data, r.choice([None, g.rnd_pts(r)]), 0x21)


def plain(r):
    """A subtitle that holds no start code of a pack (VobTrace asks for it around a pattern)."""
    while True:
        raw = g.rnd_sub(r)
        if not any(raw[i:i + 4] == [0, 0, 1, 0xBA] for i in range(len(raw))):
            return raw


def holes(ctx, asp, sizes, **kw):
    """Much of what has to be passed over, between subtitles and within one."""
    r = ctx.rng
    cases = []
    for n in sizes:
        for pattern in ([0x55], [0], [0, 0, 1, 0xBA], [0, 0, 1, 0xBA, 0x44, 0, 4, 0, 4, 1], [0, 0, 1, 0xBE, 0, 2, 9, 9],
                        g.pack_header() + [0, 0, 1, 0xE0, 0, 1, 7], g.pack_header() + [0, 0, 1, 0xBD, 0, 5, 65, 0, 0, 32, 7],
                        g.pack_header(), g.packet([1], 90, flags1=0x41)):
            raw, one = plain(r), g.packet(plain(r), 900)
            k = r.randrange(2, len(raw))
            cases.append(puffed(asp, one, pattern, one, n, **kw))
            # (what follows is a whole pack: no pattern reaches into it)
            cases.append(puffed(asp, g.packet(raw[:k], 90), pattern, g.packet(raw[k:]) + one, n, **kw))
        raw = plain(r)
        k = r.randrange(2, len(raw))
        one = g.packet(plain(r), 900)
        cases.append(puffed(asp, g.packet(raw[:k], 90), foreign(r), g.packet(raw[k:]) + one, n, **kw))
        cases.append(puffed(asp, g.packet(raw[:k], 90), g.packet([]), g.packet(raw[k:]) + one, n, **kw))
    return cases


def fixtures(asp, big=False):
    return [case(list(open(f"/repo/fixtures/{f}.sub", "rb").read()), asp)
            for f in (["tiny", "tiny-split"] + (["example"] if big else []))]


def c10(ctx):
    ctx.start_build()
    asp = ALL
    ms = [mc(ctx, "packs", "SabBcCTuvjpmnhz", 3), mc(ctx, "packs", ctx.pick("abcTvj", "abBcCTvjmf"), ctx.pick(4, 5))]
    if ctx.thorough:
        ms.append(mc(ctx, "packs", "SabBcCTuvjpmfgnhz", 4))
    replay(ctx, ms, asp)
    r = ctx.rng
    cases = [case(g.stream(r, ["good"] * r.choice([1, 2, 2, 3, 4])), asp) for _ in range(ctx.pick(600, 10000))]
    # one subtitle, split at every byte, with everything between the parts
    for _ in range(ctx.pick(2, 20)):
        raw = g.rnd_sub(r)[:]
        other = g.rnd_packet(r, g.rnd_sub(r), g.rnd_pts(r), 0x21)
        for k in range(2, len(raw)):
            cases.append(case(g.rnd_packet(r, raw[:k], 12345) + (other if k % 2 else []) + g.junk(r) + g.rnd_packet(r, raw[k:]), asp))
        for k in range(2, len(raw)):
            cases.append(case(g.rnd_packet(r, raw[:k], 12345) + g.junk(r), asp))
    # byte by byte
    for _ in range(ctx.pick(3, 20)):
        raw = g.rnd_sub(r)
        b = g.rnd_packet(r, raw[:2], 90000)
        for x in raw[2:]:
            b += g.rnd_packet(r, [x])
        cases.append(case(b, asp))
    # parts that are equal, stamps included
    for k in ctx.pick((4, 5, 8), (4, 5, 6, 7, 8, 20)):
        for again in (1, 2, 4):
            pad = k * (1 + again)
            raw = g.raw_sub([0] * (pad - 4) + [0, 1, 0, 2], [(0, [1, 3, 0x12, 0x34, 4, 0xFF, 0xFF] + g.area_cmd(0, 3, 0, 1) + [6] + g.u16(pad) + g.u16(pad) + [255])])
            raw[4:k] = [r.randrange(256) for _ in range(k - 4)]
            raw[:pad] = raw[:k] * (1 + again)
            p = g.rnd_pts(r)
            one = g.packet(raw[:k], p)
            for stamps in (True, False):
                cases.append(case(one + (one if stamps else g.packet(raw[:k])) * again + g.packet(raw[pad:], p if stamps else None), asp))
    # every stuffing length, every header extension length
    raw = g.rnd_sub(r)
    for n in range(8):
        for e in (0, 1, 7, 100, 245):
            cases.append(case(g.packet(raw, 90000 * n, stuffing=n, extra=[255] * e, dts=e or None), asp))
    # many packets
    b = []
    for i in range(ctx.pick(120, 1000)):
        b += g.carry(r, g.rnd_sub(r), 90 * i, parts=r.choice([1, 2]), noise=False)
    cases.append(case(b, asp))
    raw = g.raw_sub([r.choice([0, 0, 1, 0xBA, 0xBD]) for _ in range(ctx.pick(600, 3000))],
                    [(0, [1, 3, 0x12, 0x34, 4, 0xFF, 0xFF] + g.area_cmd(0, 3, 0, 1) + [6, 0, 4, 0, 6, 255])])
    raw[4:8] = [0, 1, 0, 2]
    cases.append(case(g.rnd_packet(r, raw[:2], 90000) + sum((g.rnd_packet(r, [x]) for x in raw[2:]), []), asp))
    # subtitles around and beyond the size of one packet
    for n in ctx.pick([2030, 65000], [2030, 2048, 4096, 20000, 65000, 65500]):
        seqs = [(0, [1, 3, 0x12, 0x34, 4, 0xFF, 0xFF] + g.area_cmd(0, 3, 0, 1) + [6, 0, 4, 0, 6, 255]), (100, [2, 255])]
        raw = g.raw_sub([0, 1, 0, 2] + [r.randrange(256) for _ in range(n - 45)], seqs)
        b, i = [], 0
        while i < len(raw):
            b += g.rnd_packet(r, raw[i:i + 2000], 90000 if i == 0 else None)
            i += 2000
        cases.append(case(b, asp))
    # packets of any size
    for n in ctx.pick([2048, 5000, 60000], [2000, 2048, 3000, 5000, 20000, 40000, 60000, 65400]):
        b = g.carry(r, g.rnd_sub(r), 90, parts=1, noise=False) + g.rnd_packet(r, g.fat(r, n), 9000) + g.carry(r, g.rnd_sub(r), 90000, parts=1, noise=False)
        cases.append(case(b, asp))
    # packets of another stream between two parts
    for n in ctx.pick([9, 40, 300], [9, 40, 300, 2000]):
        raw = g.rnd_sub(r)
        k = r.randrange(2, len(raw))
        cases.append(case(g.rnd_packet(r, raw[:k], 90) + sum((foreign(r, r.random() < .1) for _ in range(n)), []) + g.rnd_packet(r, raw[k:]), asp))
    cases += holes(ctx, asp, ctx.pick([50, 30000], [3, 50, 3000, 300000]))
    for n in ctx.pick([6 << 20], [6 << 20, 40 << 20]):
        one = g.packet(plain(r), 900)
        cases.append(puffed(asp, one, [0x55], one, n))
    traces(ctx, cases + fixtures(asp, True))


def c11(ctx):
    ctx.start_build()
    ctx.prove("ArithProof", "Vob")
    asp = ("same", "times")
    ms = [mc(ctx, "control", ctx.pick("seF", "seFUo"), ctx.pick(1, 2))]
    replay(ctx, ms, asp)
    r = ctx.rng
    cases = [case(g.stream(r, noise=False), asp) for _ in range(ctx.pick(300, 5000))]
    # times alone
    def timed(pts, d0, d1, stop, dts=None):
        seqs = [(d0, [1, 3, 0x12, 0x34, 4, 0xFF, 0xFF] + g.area_cmd(0, 3, 0, 1) + [6, 0, 4, 0, 6, 255])]
        if stop:
            seqs.append((d1, [2, 255]))
        return g.packet(g.raw_sub([0, 1, 0, 2], seqs), pts, dts=dts)
    # every bit of the time stamp
    for k in range(33):
        cases.append(case(timed(1 << k, 0, 0, k % 2), asp))
        cases.append(case(timed((1 << 33) - 1 - (1 << k), 7, 8, k % 2, dts=(1 << 33) - 1), asp))
    for k in range(16):
        cases.append(case(timed(0, 1 << k, (1 << k) - 1, True), asp))
    for _ in range(ctx.pick(1500, 30000)):
        cases.append(case(timed(g.rnd_pts(r), r.choice([0, 1, 65535, r.randrange(65536)]), r.choice([0, 1, 65535, r.randrange(65536)]),
                                r.random() < .6, r.choice([None, g.rnd_pts(r)])), asp))
    # a subtitle whose first packet has no time stamp takes none from the others
    for _ in range(ctx.pick(150, 3000)):
        b = []
        for k in range(r.choice([1, 2, 2, 3, 4])):
            b += timed(r.choice([None, g.rnd_pts(r)]), r.choice([0, 1, 50]), r.choice([0, 100]), r.random() < .5)
        cases.append(case(b, asp))
    traces(ctx, cases + fixtures(asp))


def c12(ctx):
    ctx.start_build()
    asp = ("same", "ctl", "errk", "px")
    ms = [mc(ctx, "control", ctx.pick("seFPLAOUxy", "seFPLAOU"), ctx.pick(1, 2)), mc(ctx, "links", "x", 4)]
    replay(ctx, ms, asp)
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(1000, 15000)):
        k = r.randrange(4)
        if k < 2:
            raw = g.rnd_sub(r)
        elif k == 2:
            raw = g.rnd_sub(r, "good", omit=r.sample(g.ITEMS, r.choice([1, 1, 2, 3, 5])))
        else:
            raw = g.rnd_sub(r, r.choice(["zeroarea", "backlink", "anylink", "anylink", "farlink", "nofirst", "noend", "badoffs"]))
        b = g.carry(r, raw, g.rnd_pts(r), noise=False)
        # (what a subtitle has not, it does not get from another)
        if r.random() < .4:
            b = g.carry(r, g.rnd_sub(r), g.rnd_pts(r), noise=False) + b
        if r.random() < .15:
            b += g.carry(r, g.rnd_sub(r), g.rnd_pts(r), noise=False)
        cases.append(case(b, asp))
    # corner coordinates
    for x1, x2, y1, y2 in [(0, 1, 0, 1), (4094, 4095, 4094, 4095), (15, 16, 255, 256), (16, 31, 240, 271), (2047, 2048, 2047, 2048), (256, 4095, 3840, 3841)]:
        seqs = [(0, [1, 3, 0x01, 0x23, 4, 0x45, 0x67] + g.area_cmd(x1, x2, y1, y2) + [6, 0, 4, 0, 4, 255])]
        cases.append(case(g.packet(g.raw_sub([0, 1] * 200, seqs), 90), asp))
    # long chains
    for n in ctx.pick([30, 5000], [30, 200, 1000, 5000, 11000]):
        seqs = [(i, r.choice([[0], [2], [4, 1, 2], [7, 9]] if n < 1500 else [[], [], [0], [2]]) + [255]) for i in range(n)]
        seqs.append((n, [1, 3, 1, 2, 4, 3, 4] + g.area_cmd(1, 4, 2, 3) + [6, 0, 4, 0, 6, 255]))
        cases.append(case(g.packet(g.raw_sub([0, 1, 0, 2], seqs), 90), asp))
    traces(ctx, cases + fixtures(asp))


def c13(ctx):
    ctx.start_build()
    asp = ("same", "px")
    ms = [mc(ctx, "bitmap", "x", ctx.pick(2, 3))]
    replay(ctx, ms, asp)
    r = ctx.rng

    def picture(w, even, odd, h, gap=(), order=False):
        o0 = 4
        o1 = 4 + len(even)
        seqs = [(0, [1, 3, 1, 2, 4, 3, 4] + g.area_cmd(0, w - 1, 0, h - 1) + [6] + g.u16(o0) + g.u16(o1) + [255])]
        return g.packet(g.raw_sub(even + odd + list(gap), seqs), 90)
    cases = []
    for _ in range(ctx.pick(500, 8000)):
        w = r.choice([2, 3, 4, 5, 7, 15, 16, 17, 63, 64, 65, 254, 255, 256, 300, r.randrange(2, 400)])
        h = r.choice([2, 2, 3, 4, 5, 8])
        even, odd = g.rnd_bitmap(r, w, h)
        if r.random() < .3:
            k = r.randrange(3)
            if k == 0:
                odd = odd[:r.randrange(len(odd) + 1)]
            elif k == 1:
                (even if r.random() < .5 else odd)[0] ^= 1 << r.randrange(8)
            else:
                odd = []
        cases.append(case(picture(w, even, odd, h, [r.randrange(256) for _ in range(r.choice([0, 0, 1, 3]))]), asp))
    # the widths of discs, rows as encoders write them (mostly empty, many filled to their end)
    for w in [720, 719, 718, 704, 352, 480, 544, 640, 768, 1280, 1920] + [r.randrange(300, 2000) for _ in range(ctx.pick(10, 200))]:
        for style in ("eol", "blank", "mix"):
            h = r.choice([2, 3, 4, 5, 6, 8, 9])
            cases.append(case(picture(w, *g.rnd_bitmap(r, w, h, style), h), asp))
    # every run length in every form
    for n in range(1, 256):
        for wide in (False, True):
            v = n % 4
            nib = g.code(n, v, wide)
            rest = g.code(0, 3 - v)
            q = nib + rest
            if len(q) % 2:
                q.append(9)
            row = [q[i] << 4 | q[i + 1] for i in range(0, len(q), 2)]
            cases.append(case(picture(n + 1 + n % 3, row, [0, 2], 2), asp))
            if n > 1:
                q = nib + ([0] if len(nib) % 2 else [])
                row = [q[i] << 4 | q[i + 1] for i in range(0, len(q), 2)]
                cases.append(case(picture(n, row, [0, 1], 2), asp))       # full to the pixel
                if n > 2:
                    cases.append(case(picture(n - 1, row, [0, 1], 2), asp))   # one too many
    # rows filled to their end from any place, of widths that no single count names
    for w in (257, 300, 512, 720, 1024, 1025, 1100, 2047, 2048, 4095, 4096):
        for x0 in {0, 1, 255, w // 2, w - 255, w - 256, w - 1, r.randrange(w)}:
            rows = []
            for _ in range(2):
                v, q, left = r.randrange(4), [], x0
                while left:
                    q += g.code(min(left, 255), v)
                    left -= min(left, 255)
                q += g.code(0, (v + 1) % 4)
                q += [0] * (len(q) % 2)
                rows.append([q[i] << 4 | q[i + 1] for i in range(0, len(q), 2)])
            cases.append(case(picture(w, *rows, 2), asp))
    # wide and high ones
    for w, h in ctx.pick([(4096, 2), (2, 300)], [(4096, 2), (4096, 7), (2, 4096), (4095, 4), (720, 60)]):
        even, odd = g.rnd_bitmap(r, w, h)
        if len(even) + len(odd) < 60000:
            cases.append(case(picture(w, even, odd, h), asp))
    # high ones of which the last rows are missing, or one in the middle is too long
    for h in ctx.pick([100, 577, 578, 1100, 4096], [64, 100, 300, 576, 577, 578, 579, 1081, 1100, 2050, 4095, 4096]):
        for _ in range(ctx.pick(4, 12)):
            w = r.choice([2, 3, 4])
            rows, ends = [[], []], [[0], [0]]
            for y in range(h):
                rows[y % 2] += g.rnd_row(r, w, r.choice(["eol", "ones"]))
                ends[y % 2].append(len(rows[y % 2]))
            p = r.randrange(2)
            keep = len(ends[p]) - 1 - r.choice([0, 1, 1, 2, 5, len(ends[p]) // 2])
            rows[p] = rows[p][:ends[p][max(keep, 0)]]
            if len(rows[0]) + len(rows[1]) < 60000:
                cases.append(case(picture(w, *rows, h), asp))
    for _ in range(ctx.pick(150, 3000)):
        raw = g.rnd_sub(r, r.choice(["badoffs", "longrow", "shortrows", "good"]))
        cases.append(case(g.carry(r, raw, 90, noise=False), asp))
    traces(ctx, cases + fixtures(asp))


def c14(ctx):
    ctx.start_build()
    ms = [mc(ctx, "mix", "1orRwcbfne034i", 2), mc(ctx, "control", "xyU", 1), mc(ctx, "links", "x", ctx.pick(3, 4))]
    replay(ctx, ms, ())
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(1500, 30000)):
        k = r.randrange(6)
        if k == 0:
            b = [r.choice([0, 0, 1, 0xBA, 0xBD, r.randrange(256)]) for _ in range(r.choice([0, 4, 14, 30, 100, 400]))]
        elif k == 1:
            b = g.packet([r.choice([0, 0, 1, 2, 4, 5, 6, 255, r.randrange(256)]) for _ in range(r.choice([2, 4, 10, 40]))], r.getrandbits(33))
        elif k == 2:
            raw = g.mutate(r, g.rnd_sub(r))
            raw = g.u16(len(raw)) + raw[2:] if len(raw) >= 2 else raw
            b = g.packet(raw, 90) + g.packet(g.rnd_sub(r), 90)
        elif k == 3:
            b = g.stream(r, [r.choice(["good", "bad"]) for _ in range(2)])
        else:
            b = g.mutate(r, g.stream(r))
        cases.append(case(b, (), render=1, extra=1))
    # every truncation
    for _ in range(ctx.pick(2, 20)):
        b = g.stream(r, ["good", "bad"])[:600]
        cases += [case(b[:i], (), render=1, extra=1) for i in range(len(b))]
    # every value of single bytes of a small subtitle
    raw = g.raw_sub([0, 1, 0, 2], [(0, [1, 3, 1, 2, 4, 3, 4] + g.area_cmd(1, 4, 2, 3) + [6, 0, 4, 0, 6, 255]), (9, [2, 255])])
    for i in range(2, len(raw)):
        for v in ctx.pick([0, 1, 6, 127, 255], range(256)):
            # (not two bytes of an area at once: sizes stay below 4096 x 4096)
            q = list(raw)
            q[i] = v
            cases.append(case(g.packet(q, 90), (), render=1, extra=1))
    cases += holes(ctx, (), ctx.pick([30000], [30000, 300000]), render=1, extra=1)
    traces(ctx, cases)


def c15(ctx):
    ctx.start_build()
    asp = ALL
    ms = [mc(ctx, "mix", ctx.pick("12orwcbfne034i", "12orRwcbfne034i"), 3)]
    if ctx.thorough:
        ms.append(mc(ctx, "mix", "12owbn3e", 4))
    replay(ctx, ms, asp)
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(700, 10000)):
        cases.append(case(g.stream(r, [r.choice(["good", "bad"]) for _ in range(r.choice([1, 2, 3, 5, 8]))], noise=r.random() < .3), asp))
    # many bad ones in a row
    for n in ctx.pick([20, 80], [20, 40, 80, 300]):
        for _ in range(2):
            bad = r.choice([[r.choice(g.BAD)], g.BAD])
            b = g.stream(r, ["good"])
            for _ in range(n):
                k = r.choice(bad)
                raw = g.rnd_sub(r, "good", omit=r.sample(g.ITEMS, 2)) if k == "omit" else g.rnd_sub(r, k)
                b += g.carry(r, raw, g.rnd_pts(r), noise=False)
            cases.append(case(b + g.stream(r, ["good", "good"]), asp))
    # as long as any film
    for n in ctx.pick([300, 70000], [300, 70000, 140000]):
        one = lambda pts: g.packet(g.raw_sub([0, 1, 0, 2], [(0, [1, 3, 1, 2, 4, 3, 4] + g.area_cmd(1, 4, 2, 3) + [6, 0, 4, 0, 6, 255]), (9, [2, 255])]), pts)
        cases.append(case(one(90) + one(90 * n), asp, rep=n))
    traces(ctx, cases)


def c16(ctx):
    ctx.start_build()
    cfg = f"""SPECIFICATION MSpec
CONSTANT Heights = {{{ctx.pick("2", "1, 2, 3")}}}
CONSTANT Emit = TRUE
INVARIANT OcrIsRight
INVARIANT RgbaIsRight
CHECK_DEADLOCK FALSE
"""
    m = ctx.model("MCVobRender", cfg, workers=8)
    cases = []
    for b in m.msgs:
        # an area is at least two rows high
        if b["case"]["y2"] > b["case"]["y1"]:
            cases.append(dict(b["case"], exp=[b["ocr"], b["rgba"], b["luma"]]))
    res = ctx.run_cases(number(cases))
    for x in res:
        o = x["out"][0]
        if o["t"] != "ren" or [o["ocr"], o["rgba"], o["luma"]] != x["exp"]:
            ctx.violation(x, {"expected_by_specification": x["exp"]})
    ctx.replayed += len(res)
    r = ctx.rng
    cases = []
    for i in range(ctx.pick(500, 8000)):
        w = r.choice([2, 3, 5, 8, 16, 33, 100])
        h = r.choice([2, 3, 4, 7, 12])
        large = i % ctx.pick(80, 40) == 0
        if large:
            w, h = r.choice([(300, 300), (4096, 17), (257, 256), (2, 4096), (720, 480), (4095, 40)])
        x, y = r.choice([0, 1, 4096 - w, r.randrange(3000)]), r.choice([0, 7, 4096 - h, r.randrange(3000)])
        raw, n = [], w * h
        while n:
            k = min(n, r.choice([1, 2, 255, w, w + 1, 3 * w - 1, 20 * w, 20 * w] if large else [1, 1, 2, 5, w, n]))
            v = r.randrange(4)
            if raw and raw[-1][0] == v:
                raw[-1][1] += k
            else:
                raw.append([v, k])
            n -= k
        if i == 3 or ctx.thorough and i in (5, 7):
            # millions of pixels
            w, h = {3: (4096, 600), 5: (4096, 4096), 7: (1000, 4096)}[i]
            x, y = r.choice([0, 4096 - w]), r.choice([0, 4096 - h])
            raw = [[k % 4, w * r.choice([1, 1, 2, 3]) if k % 3 else r.randrange(1, 3 * w)] for k in range(4096)]
            n = 0
            for k, q in enumerate(raw):
                q[1] = min(q[1], w * h - n)
                n += q[1]
                if n == w * h:
                    raw = raw[:k + 1]
                    break
        dark = r.random() < .5
        palette = [[r.choice([0, 0, 1, 2, 4, 5, 13, 14, 255]) if dark else r.randrange(256) for _ in range(3)] for _ in range(16)]
        cases.append({"fam": "vobimg", "x1": x, "x2": x + w - 1, "y1": y, "y2": y + h - 1, "raw": raw,
                      "pal": [r.randrange(16) for _ in range(4)], "al": [r.choice([0, 0, 1, 15, r.randrange(16)]) for _ in range(4)],
                      "palette": palette, "border": r.choice([0, 1, 2, 5, 11, 11, 40, r.choice([127, 128, 255, 256, 257, 300])]), "text": r.choice([0, 10, 255]), "bg": r.choice([255, 0, 9]), "how": r.choice(["own", "own", "own", "default", "border"])})
    for b in ctx.pick([1500], [1025, 1500, 2049, 2500]):
        cases.append(dict(r.choice(cases[:50]), border=b, how=r.choice(["own", "border"])))
    res = ctx.run_cases(number(cases))
    ctx.sample(min(res, key=lambda q: len(str(q))))
    ctx.judge("VobImgTrace", IMG_CFG, res)


PLANS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16}
