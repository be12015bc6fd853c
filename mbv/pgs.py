"""Properties of the SUP reader and its images."""
from . import gen_pgs as g
from .core import ToolError

TRACE_CFG = """SPECIFICATION TSpec
CONSTANT Stream <- TStream
CONSTANT Mode <- TMode
CONSTANT Fault <- TFault
CHECK_DEADLOCK FALSE
"""
IMG_CFG = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"


def case(bytes_, dec="image", asp=("same", "times"), **kw):
    c = {"fam": "pgs", "dec": dec, "bytes": bytes_, "asp": list(asp), "cap": 0, "chunk": 0, "intr": 0, "fault": -1}
    c.update(kw)
    return c


def number(cases):
    for i, c in enumerate(cases):
        c["id"] = i
    return cases


def vary_io(ctx, cases):
    """Some of the runs read through a buffer of some size: it may not matter."""
    for c in cases:
        if c["fam"] == "pgs" and c["cap"] == 0 and "rep" not in c and ctx.rng.random() < .35:
            c["cap"] = ctx.rng.choice([1, 3, 7, 13, 14, 16, 64, 64, 300, 8192])
            c["chunk"] = ctx.rng.choice([0, 0, 0, 1, 5, 13, 100])


def traces(ctx, cases):
    vary_io(ctx, cases)
    res = ctx.run_cases(number(cases))
    if res:
        ctx.sample(min(res, key=lambda r: abs(len(r["bytes"]) - 200)))
    ctx.judge("PgsTrace", TRACE_CFG, res)
    return res


def mc(ctx, family, alphabet, n, modes="BothModes", emit=True, name=None):
    cfg = f"""SPECIFICATION MSpec
CONSTANT Stream <- MStream
CONSTANT Mode <- MMode
CONSTANT Fault <- MFault
CONSTANT Alphabet = {{{",".join('"%s"' % a for a in alphabet)}}}
CONSTANT MaxItems = {n}
CONSTANT Family = "{family}"
CONSTANT Modes <- {modes}
CONSTANT Emit = {"TRUE" if emit else "FALSE"}
INVARIANT ReturnsExpected
INVARIANT NothingMissing
INVARIANT OnePerPair
PROPERTY Terminates
PROPERTY Progress
CHECK_DEADLOCK FALSE
"""
    return ctx.model("MCPgs", cfg, name=name or f"MCPgs/{family}/{alphabet}/{n}/{modes}", workers=8)


def same(exp, out, asp):
    if len(exp) != len(out):
        return False
    for x, o in zip(exp, out):
        if x["t"] != o["t"]:
            return False
        if x["t"] == "err" and "errk" in asp and x["k"].startswith("Missing") and x["k"] != o["k"]:
            return False
        if x["t"] == "cap":
            for a, ks in (("times", "se"), ("size", "wh"), ("px", ["px"])):
                if a in asp and any(x[k] != o[k] for k in ks):
                    return False
    return True


def replay(ctx, models, asp):
    """Every behaviour the models have must be shown by the real code."""
    cases, exps = [], []
    for m in models:
        if not m.msgs:
            raise ToolError(f"{m.name} printed no behaviour")
        for b in m.msgs:
            cases.append(case(b["bytes"], b["dec"], asp))
            exps.append(b["exp"])
    res = ctx.run_cases(number(cases))
    for r, e in zip(res, exps):
        if not same(e, r["out"], asp):
            ctx.violation(r, {"expected_by_specification": e})
    ctx.replayed += len(res)
    return res


def fixtures(asp, dec=("image", "time")):
    import glob
    out = []
    for f in sorted(glob.glob("/repo/fixtures/*.sup")):
        b = list(open(f, "rb").read())
        if len(b) < 60000:
            out += [case(b, d, asp) for d in dec]
    return out


# ---------------------------------------------------------------- C01
def c01(ctx):
    ctx.start_build()
    ctx.prove("ArithProof", "Sup")
    m = mc(ctx, "free", "PA1E", ctx.pick(5, 7))
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(400, 6000)):
        b = g.stream(r)
        cases += [case(b, "time"), case(b, "image")]
    replay(ctx, [m], ("same", "times"))
    # long streams
    for n in ctx.pick([300, 1500], [300, 1500, 4000]):
        b = []
        for i in range(n):
            b += g.seg((i * 7919) % 2 ** 32, g.END) + (g.filler(r, 1) if r.random() < .1 else []) + g.seg((i * 104729) % 2 ** 32, g.END)
        cases.append(case(b, "time"))
    pal, (w, h, data, _) = g.pds(1, [(1, 2, 3)]), (2, 1, [1, 1], 0)
    one = pal + g.ods_one(1, w, h, data)
    b = []
    for i in range(ctx.pick(150, 1000)):
        b += one + g.seg(90 * i, g.END) + g.seg(90 * i + 45, g.END)
    cases.append(case(b, "image"))
    # as long as any film: the same captions again and again
    for n in ctx.pick([300, 70000], [300, 1100, 33000, 70000, 140000]):
        for dec, body in (("time", []), ("image", one)):
            b = body + g.seg(90, g.END) + g.seg(180, g.END) + body + g.seg(90 * n, g.END) + g.seg(90 * n + 5, g.END)
            cases.append(case(b, dec, rep=n))
    traces(ctx, cases + fixtures(("same", "times")))


# ---------------------------------------------------------------- C02
def c02(ctx):
    ctx.start_build()
    asp = ("same", "times")
    ms = [mc(ctx, "free", "QAfxE", ctx.pick(5, 6), "TimeMode"),
          mc(ctx, "goodmiddle", "QA1fl", ctx.pick(3, 4))]
    replay(ctx, ms, asp)
    r = ctx.rng
    cases, pairs = [], []
    for _ in range(ctx.pick(300, 5000)):
        b = g.stream(r)
        if r.random() < .15:
            b = g.sized_ends(r, b)
        pairs.append((len(cases), len(cases) + 1))
        cases += [case(b, "time"), case(b, "image")]
    for _ in range(ctx.pick(300, 5000)):
        # Content between the end markers that only the time-only mode can read.
        b = []
        for _ in range(r.choice([1, 2, 3, 4, 5, 6])):
            t = g.rnd_pts(r)
            for _ in range(r.choice([0, 0, 1, 2, 4])):
                b += r.choice([g.filler, g.bad_pds, g.bad_ods, lambda q, p: g.seg(p, r.choice([20, 21]), [r.randrange(256) for _ in range(r.choice([0, 1, 13, 200, 5000]))])])(r, t)
            b += g.seg(t, g.END)
        cases.append(case(b, "time"))
    # skipped content around the size of the buffer
    def skipped(n, cap, kind, **kw):
        b = g.seg(90, g.END) + g.seg(90, kind, [(i * 37 + n) % 256 for i in range(n)]) + g.seg(90 * n + 180, g.END)
        b += g.seg(7, r.choice([20, 21, 22]), [80, 71] * (n // 3)) + g.seg(90 * n, g.END) + g.seg(99999, g.END)
        cases.append(case(b, "time", cap=cap, **kw))
    for cap in (1, 13, 14, 16, 26, 27, 40):
        for n in range(0, ctx.pick(60, 120)):
            skipped(n, cap, 20 + n % 4, chunk=r.choice([0, 0, 1, 13]))
    for n in ctx.pick([8165, 8166, 8167, 8179, 65535], list(range(8160, 8200)) + [16371, 16384, 65534, 65535]):
        skipped(n, 8192, r.choice([20, 21, 22, 23]), chunk=r.choice([0, 0, 5000]))
    res = traces(ctx, cases + fixtures(asp, ("time",)))
    spans = lambda o: [(e["s"], e["e"]) for e in o if e["t"] == "cap"]
    for i, j in pairs:
        if spans(res[i]["out"]) != spans(res[j]["out"]):
            ctx.violation(res[i], {"time_only": res[i]["out"], "image": res[j]["out"]})
    ctx.notes["pairs_compared"] = len(pairs)


# ---------------------------------------------------------------- C03
def c03(ctx):
    ctx.start_build()
    asp = ("same", "size", "px")
    ms = [mc(ctx, "goodmiddle", "AB12flP" if ctx.thorough else "AB1flP", 4, "ImageMode"), mc(ctx, "middle", "AB1flP", ctx.pick(3, 4), "ImageMode")]
    replay(ctx, ms, asp)
    r = ctx.rng
    cases = []
    for i in range(ctx.pick(400, 6000)):
        cases.append(case(g.stream(r, r.choice([1, 2, 3]), split=r.choice([None, True]), big=r.random() < .03), "image", asp))
    # several objects, each with its palette, some without a pixel
    for _ in range(ctx.pick(80, 1000)):
        b = []
        for pts in range(r.choice([1, 2])):
            for _ in range(r.choice([2, 2, 3, 4])):
                w, h, data, colours = g.rnd_image(r)
                if r.random() < .4:
                    w, h, data = r.choice([(0, h, data), (w, 0, data), (0, 0, []), (w, h, []), (0, 0, data)])
                b += g.pds(pts, g.rnd_palette(r, colours)) + g.obj_segments(r, pts, w, h, data, split=r.choice([None, True]))
            b += g.seg(pts, g.END) + g.seg(pts + 1, g.END)
        cases.append(case(b, "image", asp))
    # several objects of which some have much data, in parts of any size
    for _ in range(ctx.pick(8, 60)):
        b = []
        large = r.randrange(3)
        for k in range(3):
            w, h, data, colours = g.rnd_image(r)
            if k == large:
                data = data + [0, 0] * r.choice([300, 5000, 17000, 33000, 40000, 65000 if len(data) < 1000 else 60000])
            b += g.pds(1, g.rnd_palette(r, colours)) + g.filler(r, 1) + g.obj_segments(r, 1, w, h, data, split=r.choice([None, True]))
            if r.random() < .2:
                b += g.obj_segments(r, 1, *g.rnd_image(r)[:3]) if r.random() < .5 else g.filler(r, 1)
        cases.append(case(b + g.seg(1, g.END) + g.seg(2, g.END), "image", asp))
    # one object split at every byte
    for _ in range(ctx.pick(3, 30)):
        w, h, data, colours = g.rnd_image(r)
        data = data[:ctx.pick(60, 400)]
        pal = g.pds(1, g.rnd_palette(r, colours))
        for cut in range(len(data) + 1):
            b = pal + g.ods_first(1, w, h, data, cut) + g.filler(r, 1) + g.ods_last(1, data, cut)
            cases.append(case(b + g.seg(1, g.END) + g.seg(2, g.END), "image", asp))
    # objects of more than one segment's capacity
    for n in ctx.pick([66000, 131055], [65535, 65524, 65525, 66000, 131000, 131055]):
        data = [1 + (i * 7) % 255 for i in range(n)]
        cut = r.choice([n // 2, 65524, 65000]) if n > 65524 else n
        if n - cut > 65531:
            cut = 65524
        w, h = 1000, n // 1000
        pal = g.pds(1, [(i, i, 255 - i) for i in range(1, 256, 2)])
        if cut == n:
            b = pal + g.ods_one(1, w, h, data)
        else:
            b = pal + g.ods_first(1, w, h, data, cut) + g.ods_last(1, data, cut)
        cases.append(case(b + g.seg(1, g.END) + g.seg(2, g.END), "image", ("same", "size", "px")))
    traces(ctx, cases + fixtures(asp, ("image",)))


# ---------------------------------------------------------------- C04, C05, C09
def iter_model(ctx, forms, rich, emit=True, few=False):
    cfg = f"""SPECIFICATION MSpec
CONSTANT MaxForms = {forms}
CONSTANT Few = {"TRUE" if few else "FALSE"}
CONSTANT Rich = {"TRUE" if rich else "FALSE"}
CONSTANT Emit = {"TRUE" if emit else "FALSE"}
INVARIANT LengthIsExact
INVARIANT NeverTooMany
INVARIANT PixelsAreThoseOfTheData
INVARIANT PrefixOfThePixels
INVARIANT MeansWhatItSays
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
    m = ctx.model("MCPgsIter", cfg, name=f"MCPgsIter/{forms}/{'rich' if rich else 'plain'}{'/few' if few else ''}", workers=8)
    return m


def replay_pictures(ctx, m, kinds):
    cases = []
    for b in m.msgs:
        cases.append(dict(case(b["bytes"], "image", kinds), exp=b))
    if not cases:
        raise ToolError(f"{m.name} printed no behaviour")
    res = ctx.run_cases(number(cases))
    for r in res:
        e = r["exp"]
        want = [{"t": "cap", "w": e["w"], "h": e["h"], "px": e["px"]}, {"t": "end"}]
        if not same(want, r["out"], ("size", "px")):
            ctx.violation(r, {"expected_by_specification": want})
    ctx.replayed += len(res)


def picture(r, kind="good"):
    if kind == "good":
        w, h, data, colours = g.rnd_image(r)
    elif kind == "dense":
        # every form with boundary counts
        colours = r.sample(range(256), 6) + [0]
        data, n = [], 0
        for _ in range(r.choice([1, 3, 8])):
            c, k = r.choice(colours), r.choice([1, 2, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 1024])
            data += g.enc_run(c, k, r.choice(["single", "short", "long"]))
            n += k
            while r.random() < .2:
                data += [0, 0]
            if r.random() < .1:       # a run of no pixel
                data += r.choice([[0, 0x40, 0], [0, 0x80, c], [0, 0xC0, 0, c]])
        if r.random() < .1:
            data += g.enc_run(r.choice(colours), 16383, "long")
            n += 16383
        d = r.choice([1, 2, 3])
        w, h = (n // d, d) if n % d == 0 else (n, 1)
    else:
        w, h = r.choice([0, 1, 2, 3, 5, 10, 64, 100]), r.choice([0, 1, 2, 3, 10])
        colours = r.sample(range(256), 5)
        data = g.garbage_rle(r)
    pal = g.rnd_palette(r, colours)
    return {"w": w, "h": h, "data": data, "pal": [{"id": i, "l": l, "a": a} for i, l, a in pal]}


def picture_case(r, p, asp, **kw):
    pal = g.pds(1, [(e["id"], e["l"], e["a"]) for e in p["pal"]], rnd=r)
    b = pal + g.obj_segments(r, 1, p["w"], p["h"], p["data"]) + g.seg(1, g.END) + g.seg(2, g.END)
    c = {"fam": "pgsimg", "bytes": b, "img": p, "asp": list(asp), "border": r.choice([0, 1, 2, 5, 7, 7, 30, r.choice([127, 128, 255, 256, 257, 300, 512])]),
         "bg": r.choice([255, 0, 100]), "text": r.choice([0, 50]), "how": r.choice(["own", "own", "default", "border"]),
         "lt": r.choice([0, 1, 100, 128, 254, 255]), "at": r.choice([0, 1, 100, 128, 254, 255]), "step": r.choice([1, 1, 2, 3, 7])}
    c.update(kw)
    return c


def pictures(ctx, cases):
    res = ctx.run_cases(number(cases))
    ctx.sample(min(res, key=lambda r: abs(len(r["bytes"]) - 120)))
    ctx.judge("PgsImgTrace", IMG_CFG, res)


def c04(ctx):
    ctx.start_build()
    for m in (iter_model(ctx, ctx.pick(2, 3), False), iter_model(ctx, ctx.pick(4, 6), False, few=True), iter_model(ctx, ctx.pick(1, 2), True),
              iter_model(ctx, ctx.pick(2, 4), True, few=True)):
        replay_pictures(ctx, m, ("size", "px"))
    r = ctx.rng
    cases = [picture_case(r, picture(r, r.choice(["good", "dense", "dense", "odd"])), ["px"], step=1000) for _ in range(ctx.pick(400, 6000))]
    # every colour number, every palette order
    for i in range(ctx.pick(20, 200)):
        ids = r.sample(range(256), r.choice([1, 2, 255, 256]))
        p = {"w": 256, "h": 1, "data": [b for c in range(256) for b in g.enc_run(c, 1, r.choice(["single", "short", "long"]))],
             "pal": [{"id": k, "l": r.randrange(256), "a": r.randrange(256)} for k in ids]}
        cases.append(picture_case(r, p, ["px"], step=1000))
    pictures(ctx, cases)


def c05(ctx):
    ctx.start_build()
    render_model(ctx)
    r = ctx.rng
    cases = [picture_case(r, picture(r, r.choice(["good", "good", "dense", "odd"])), ["ren"], step=1000)
             for _ in range(ctx.pick(300, 4000))]
    # pictures of many pixels: rows of one colour, columns of one colour, few pixels in a large one
    for w, h in ctx.pick([(300, 300), (65535, 2), (2, 3000), (257, 256)],
                         [(300, 300), (65535, 2), (2, 5000), (257, 256), (256, 257), (1000, 700), (65535, 9), (1, 65535), (4096, 40), (70, 1000)]):
        for kind in range(1 if (w, h) == (1, 65535) else 0, 2):
            cases.append(picture_case(r, large_picture(r, w, h, kind), ["ren"], step=1000000))
    # pictures of millions of pixels
    for w, h in ctx.pick([(16000, 300)], [(16000, 300), (4097, 4096), (65535, 300), (300, 16000)]):
        p = large_picture(r, w, h, 1)
        cases.append(picture_case(r, p, ["ren"], step=1000000000, how="own", border=1))
    # wide borders
    for b in ctx.pick([1500], [1025, 1500, 2049, 2500]):
        p = picture(r, "odd")
        while p["w"] * p["h"] > 1000:
            p = picture(r, "odd")
        cases.append(picture_case(r, p, ["ren"], step=1000, border=b, how=r.choice(["own", "border"])))
    pictures(ctx, cases)


def large_picture(r, w, h, kind):
    colours = r.sample(range(1, 256), 8) + [0]
    data, k = [], 0
    for y in range(h):
        if kind == 0:
            c = colours[(y * 7 + y // 256) % len(colours)]
            runs, left = [], w
            while left:
                n = min(left, 16383)
                data += g.enc_run(c, n, "single" if n == 1 else "long")
                left -= n
        else:
            left = w
            # a mark at a place of its own in some rows
            if y % max(1, h // 300) == 0:
                at = (y * 31) % w
                left = w - at - 1
                while at:
                    n = min(at, 16383)
                    data += g.enc_run(colours[0], n, "long")
                    at -= n
                data += g.enc_run(colours[1 + y % 8], 1, "single")
            while left:
                n = min(left, 16383)
                data += g.enc_run(colours[0], n, "single" if n == 1 else "long")
                left -= n
        if h < 5001 and r.random() < .5:
            data += [0, 0]
        k += 1
    pal = g.rnd_palette(r, colours)
    return {"w": w, "h": h, "data": data, "pal": [{"id": i, "l": l, "a": a} for i, l, a in pal]}


def render_model(ctx):
    cfg = f"""SPECIFICATION MSpec
CONSTANT MaxW = {ctx.pick(2, 3)}
CONSTANT MaxH = {ctx.pick(2, 2)}
CONSTANT MaxBorder = 2
INVARIANT BorderIsRight
INVARIANT BorderIsComplete
CHECK_DEADLOCK FALSE
"""
    ctx.model("MCRender", cfg, workers=4)


def iterops_model(ctx, n, pictures):
    cfg = f"""SPECIFICATION MSpec
CONSTANT MaxOps = {n}
CONSTANT Pictures = {pictures}
CONSTANT Emit = TRUE
INVARIANT LengthIsExact
INVARIANT PrefixOfThePixels
INVARIANT AnswersAreRight
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
    return ctx.model("MCIterOps", cfg, name=f"MCIterOps/{n}/{pictures}", workers=8)


def replay_ops(ctx, ms):
    cases = [{"fam": "pgsimg", "bytes": b["bytes"], "ops": b["ops"], "exp": b["got"]} for m in ms for b in m.msgs]
    if not cases:
        raise ToolError("no behaviour printed")
    res = ctx.run_cases(number(cases))
    for r in res:
        if len(r["out"]) != 1 or r["out"][0].get("ops") != r["exp"]:
            ctx.violation(r, {"expected_by_specification": r["exp"]})
    ctx.replayed += len(res)


def ops_script(r, p):
    """Some operations on the iteration over picture p."""
    total = p["w"] * p["h"]
    small = total <= 6000
    k = lambda: r.choice([0, 0, 1, 2, 3, 7, p["w"], max(p["w"] - 1, 0), p["w"] + 1, 62, 63, 64, 65, 255, 256, total, max(total - 1, 0), r.randrange(total + 2)])
    ops = []
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        o = r.choice(["next", "next", "len", "nth", "nth", "skip", "take", "take", "find"])
        if o == "find":
            e = r.choice(p["pal"]) if p["pal"] else {"l": 255, "a": 0}
            ops.append([o, r.choice([[e["l"], e["a"]], [e["l"], e["a"]], [255, 0], [1, 2]])])
        elif o in ("nth", "skip", "take"):
            ops.append([o, k()])
        else:
            ops.append([o])
        if r.random() < .4:
            ops.append(["len"])
    if r.random() < .7:
        o = r.choice(["rest", "fold", "for", "collect", "count", "count", "last", "step"])
        if o == "step":
            if small or total < 60000:
                ops.append([o, r.choice([1, 2, 3, 64, max(p["w"], 1)]) if small else 1000])
        else:
            ops.append([o])
    return ops


def c09(ctx):
    ctx.start_build()
    replay_ops(ctx, [iterops_model(ctx, ctx.pick(2, 3), 6)])
    m = iter_model(ctx, ctx.pick(1, 2), True)
    replay_pictures(ctx, m, ("size",))
    r = ctx.rng
    cases = [picture_case(r, picture(r, r.choice(["good", "dense", "odd", "odd"])), ["len"]) for _ in range(ctx.pick(300, 4000))]
    for _ in range(ctx.pick(700, 12000)):
        p = picture(r, r.choice(["good", "good", "dense", "odd", "odd"]))
        cases.append(picture_case(r, p, ["ops"], ops=ops_script(r, p)))
    # small pictures with data for much more, of which nothing may come
    for n in ctx.pick([300, 70000, 131000], [300, 5000, 32768, 65524, 65536, 70000, 131000]):
        for unit in ([0, 0], [5], [0, 0x83, 7], [0, 0xC1, 0, 9]):
            p = picture(r, "good")
            p["data"] = p["data"] + (unit * n)[:n - len(p["data"])]
            cases.append(picture_case(r, p, ["len"]))
            cases.append(picture_case(r, p, ["ops"], ops=ops_script(r, p)))
            cases.append(picture_case(r, p, ["ops"], ops=[["nth", p["w"] * p["h"] - 1], ["len"], ["next"], ["len"], ["next"], ["len"], ["rest"]]))
    # the longest columns and rows
    for w, h in [(1, 32768), (1, 65535), (65535, 1)] + ctx.pick([], [(1, 32767), (2, 40000), (40000, 2), (3, 65534), (65534, 5)]):
        p = large_picture(r, w, h, 1)
        cases.append(picture_case(r, p, ["len"], step=1000))
        cases.append(picture_case(r, p, ["ops"], ops=[["len"], ["nth", h], ["len"], ["take", 3], ["len"], ["count"]]))
    # more pixels than can be taken: only the lengths
    for w, h in [(65535, 65535), (65535, 32769), (32768, 65535), (46341, 46341), (40000, 60000), (65535, 256), (1, 1), (0, 65535)] + \
            [(r.randrange(65536), r.randrange(65536)) for _ in range(ctx.pick(20, 300))]:
        p = picture(r, r.choice(["good", "dense"]))
        cases.append(picture_case(r, {**p, "w": w, "h": h}, ["huge"], huge=0 if w * h == 0 else r.choice([0, 1, 5, 200]) if w * h > 200 else 1))
    pictures(ctx, cases)


# ---------------------------------------------------------------- C06
def c06(ctx):
    ctx.start_build()
    m = iter_model(ctx, ctx.pick(1, 2), True)
    replay_pictures(ctx, m, ("size",))
    m = mc(ctx, "free", "A1flkjxyvE" if ctx.thorough else "A1flkxyE", 4, "ImageMode")
    replay(ctx, [m], ())
    r = ctx.rng
    cases, pics = [], []
    anyway = ()
    for _ in range(ctx.pick(1200, 20000)):
        k = r.randrange(5)
        if k == 0:
            b = g.garbage_image_stream(r)
        elif k == 1:
            b = [r.randrange(256) for _ in range(r.choice([0, 1, 12, 13, 14, 26, 100]))]
        else:
            b = g.mutate(r, g.stream(r, r.choice([1, 2])) if k < 4 else g.spoilt(r, *g.times(r), r.choice(g.SPOILT)))
        cases.append(case(b, r.choice(["image", "image", "time"]), anyway))
    # pictures of any size with little data
    for _ in range(ctx.pick(60, 600)):
        w, h = (r.choice([1, 100, 1920, 16383, 16384, 60000, 65535]) for _ in range(2))
        data = r.choice([[], [1], [0, 0xFF, 0xFF, 7], g.garbage_rle(r)])
        cases.append(case(g.pds(1, [(7, 1, 2)]) + g.obj_segments(r, 1, w, h, data) + g.seg(1, g.END) + g.seg(2, g.END), "image", ("same", "size")))
    # every cut of a stream
    for _ in range(ctx.pick(2, 20)):
        b = g.caption(r, 900, 1800, objects=1)[:400]
        cases += [case(b[:i], "image", anyway) for i in range(len(b))]
    # contradicting sizes are errors
    for _ in range(ctx.pick(200, 3000)):
        b = g.spoilt(r, *g.times(r), r.choice(["badpalette", "badobject", "badpart", "badclose"]))
        cases.append(case(b, "image", ("same",)))
    # (also when there is more than a segment can hold)
    for n in ctx.pick([65532, 65600, 100000, 131054], [65525, 65531, 65532, 65533, 65600, 80000, 100000, 131000, 131054]):
        data = [1 + (i * 7) % 255 for i in range(n)]
        cut = min(max(r.choice([0, 100, n // 2, 60000]), n - 65000, 0), 65524)
        first = g.pds(1, [(1, 2, 3)]) + g.ods_first(1, 100, 10, data, cut)
        room = 65531 - (n - cut)
        for d in (1, 2, 1000, 40000, -1, -2, -1000, -(n - cut)):
            if d <= room and d >= cut - n:
                last = data[cut:] + [9] * d if d > 0 else data[cut:n + d]
                b = first + g.filler(r, 1) + g.ods_last(1, last, 0) + g.seg(1, g.END) + g.seg(2, g.END) + g.caption(r, 90, 180)
                cases.append(case(b, "image", ("same",)))
        for d in (1, 70, 65536):
            b = g.pds(1, [(1, 2, 3)]) + g.seg(1, g.ODS, [0, 0, 0, r.choice([0x80, 0xC0])] + g.u24(max(0, cut + 4 - d)) + [0, 1, 0, 1] + data[:cut])
            cases.append(case(b + g.seg(1, g.END) + g.seg(2, g.END), "image", ("same",)))
    for _ in range(ctx.pick(200, 3000)):
        pics.append(picture_case(r, picture(r, "odd"), ["ren", "len"]))
    # sizes of segments
    for n in (127, 128, 255, 256, 32766, 32767, 32768, 32769, 65534, 65535):
        for kind in (20, 21, 22, 23):
            for m in ("time", "image"):
                b = g.seg(1, kind, [r.randrange(256)] * n) + g.seg(1, kind, []) + g.seg(2, g.END) + g.seg(3, g.END)
                cases.append(case(b, m, ("same",), cap=r.choice([1, 16, 300, 8192]), chunk=r.choice([0, 0, 1000])))
                cases.append(case(g.seg(1, kind, [7] * 40, size=n), m, anyway, cap=r.choice([1, 16, 8192])))
    # palettes with more entries than there are colour numbers
    for n in (255, 256, 257, 300, 1000, 13106):
        b = g.pds(1, [(r.randrange(256), r.randrange(256), r.randrange(256)) for _ in range(n)]) + g.ods_one(1, 16, 16, list(range(1, 256)) + [0, 1])
        cases.append(case(b + g.seg(1, g.END) + g.seg(2, g.END), "image", anyway))
    # objects of nothing but ends of line, or of runs of no pixels
    for unit in ([0, 0], [0, 64, 0], [0, 128, 5]):
        for n in (20000, 65536, 131054):
            data = (unit * n)[:n] + [1]
            p = {"w": 2, "h": 2, "data": data, "pal": [{"id": 0, "l": 9, "a": 9}, {"id": 1, "l": 200, "a": 255}]}
            b = g.pds(1, [(0, 9, 9), (1, 200, 255)])
            b += g.ods_one(1, 2, 2, data) if n < 65000 else g.ods_first(1, 2, 2, data, 65524) + g.ods_last(1, data, 65524)
            cases.append(case(b + g.seg(1, g.END) + g.seg(2, g.END), "image", ("same", "size", "px")))
    traces(ctx, cases)
    pictures(ctx, pics)


# ---------------------------------------------------------------- C07
def c07(ctx):
    ctx.start_build()
    asp = ("same", "times", "size", "px", "errk")
    ms = [mc(ctx, "middle", "A1fklxyBv" if ctx.thorough else "A1fklxy", 3, "ImageMode")]
    replay(ctx, ms, asp)
    r = ctx.rng
    cases = []
    for i in range(ctx.pick(500, 6000)):
        b = []
        for _ in range(r.choice([1, 2, 3, 4])):
            if r.random() < .6:
                b += g.spoilt(r, *g.times(r), r.choice(g.SPOILT))
            else:
                b += g.caption(r, *g.times(r))
        cases.append(case(b, "image", asp))
    # many spoilt captions in a row
    for n in ctx.pick([12, 40, 300], [12, 40, 300, 1000]):
        kinds = r.choice([["noobject"], g.SPOILT])
        b = g.caption(r, *g.times(r))
        for _ in range(n):
            b += g.spoilt(r, *g.times(r), r.choice(kinds))
        cases.append(case(b + g.caption(r, *g.times(r)) + g.caption(r, *g.times(r)), "image", asp))
    b = sum((g.spoilt(r, 90, 180, k) for k in g.SPOILT), []) + g.caption(r, 270, 360)
    cases.append(case(b, "image", asp, rep=ctx.pick(8000, 20000)))
    b = g.spoilt(r, 90, 180, "noobject")
    cases.append(case(b, "image", asp, rep=70000))
    traces(ctx, cases + fixtures(asp, ("image",)))


# ---------------------------------------------------------------- C08
def c08(ctx):
    ctx.start_build()
    ctx.prove("IoProof", "Both")
    ctx.prove("IoProof", "Both", "Anywhere", 1)
    io_model(ctx)
    asp = ("same", "times", "size", "px")
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(120, 1500)):
        b = g.stream(r, r.choice([1, 2, 3])) if r.random() < .7 else g.spoilt(r, *g.times(r), r.choice(g.SPOILT)) + g.caption(r, *g.times(r))
        for _ in range(4):
            cases.append(case(b, r.choice(["image", "time"]), asp, cap=r.choice([1, 2, 5, 12, 13, 14, 64, 8192]),
                              chunk=r.choice([0, 1, 2, 3, 12, 13, 100]), intr=r.choice([0, 0, 2, 3, 5])))
        for _ in range(4):
            f = r.choice([0, 1, len(b), len(b) - 1, r.randrange(len(b) + 1), r.randrange(len(b) + 1)])
            cases.append(case(b, r.choice(["image", "time"]), asp, cap=r.choice([1, 2, 13, 64, 8192]),
                              chunk=r.choice([0, 1, 3, 13]), intr=r.choice([0, 0, 2, 5]), fault=f,
                              ekind=r.randrange(17), seekfail=r.randrange(2), once=r.randrange(2)))
    # a failure at every offset
    for _ in range(ctx.pick(1, 8)):
        b = (g.caption(r, 90000, 180000, objects=1) + g.caption(r, 270000, 360000, objects=1))[:ctx.pick(500, 1500)]
        for f in range(len(b) + 1):
            cases.append(case(b, "image" if f % 2 else "time", asp, cap=r.choice([1, 16, 8192]), fault=f,
                              ekind=r.choice([0, r.randrange(17)]), seekfail=r.randrange(2), once=r.randrange(2)))
    # many interruptions in a row
    for _ in range(ctx.pick(30, 200)):
        b = g.caption(r, *g.times(r), objects=1) + (g.spoilt(r, *g.times(r), r.choice(g.SPOILT)) if r.random() < .4 else g.caption(r, *g.times(r)))
        for m in ("image", "time"):
            cases.append(case(b, m, asp, cap=r.choice([1, 7, 13, 64, 8192]), chunk=r.choice([0, 1, 5, 100]),
                              burst=r.choice([2, 9, 20, 60, 300]), fault=r.choice([-1, -1, r.randrange(len(b) + 1)])))
    # every kind of failure between the segments, in a header, in a content
    for b in (g.caption(r, 90000, 180000, objects=1), g.filler(r, 5) + g.seg(5, g.END)):
        for k in range(17):
            for f in sorted({x for x in (0, 5, 13, 14, len(b) - 13, len(b) - 3, len(b)) if x <= len(b)}):
                for m in ("image", "time"):
                    cases.append(case(b, m, asp, cap=r.choice([1, 16, 8192]), fault=f, ekind=k, once=r.randrange(2)))
    # a single failure around segments without content
    b = g.seg(1, g.WDS) + g.seg(1, g.PDS, [0, 0]) + g.seg(1, g.PCS, [1]) + g.seg(90, g.END) + g.seg(2, g.WDS) + g.seg(180, g.END)
    for f in range(len(b) + 1):
        for m in ("image", "time"):
            for cap in (1, 13, 16, 8192):
                cases.append(case(b, m, asp, cap=cap, fault=f, ekind=r.choice([0, r.randrange(17)]), once=1))
    traces(ctx, cases)


def io_model(ctx):
    for depth, cap, intr in ctx.pick([(2, 2, 1)], [(3, 1, 2), (3, 3, 1), (2, 5, 3)]):
        cfg = f"""SPECIFICATION MSpec
CONSTANT Depth = {depth}
CONSTANT Capacity = {cap}
CONSTANT Intr = {intr}
INVARIANT Delivered
INVARIANT Honest
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
        ctx.model("MCPgsIo", cfg, name=f"MCPgsIo/{depth}/{cap}/{intr}", workers=8)


# ---------------------------------------------------------------- C26
def c26(ctx):
    ctx.start_build()
    units, n = ctx.pick(("FewUnits", 4), ("ManyUnits", 4))
    cfg = f"""SPECIFICATION MSpec
CONSTANT Stream <- MStream
CONSTANT Mode <- MMode
CONSTANT Fault <- MFault
CONSTANT Units <- {units}
CONSTANT MaxItems = {n}
CONSTANT Emit = TRUE
INVARIANT EachAsAlone
INVARIANT BehindTheEnd
INVARIANT NothingMissing
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
    m = ctx.model("MCPgsHand", cfg, name=f"MCPgsHand/{units}/{n}", workers=8, heap="8g", timeout=3000)
    r = ctx.rng

    def hand(b, decs, start=0):
        c = {"fam": "hand", "bytes": b, "decs": decs, "start": start, "max": 0, "via": [r.choice(["call", "parser"]) for _ in range(r.choice([1, 2, 3, 5]))],
             "cap": 0, "chunk": 0, "intr": 0}
        k = r.randrange(4)
        if k:
            c["cap"] = r.choice([1, 3, 7, 13, 14, 16, 64, 300, 8192])
        if k == 3:
            c["chunk"], c["intr"], c["burst"] = r.choice([0, 1, 5, 13, 100]), r.choice([0, 0, 2, 3]), r.choice([0, 0, 0, 30])
        if r.random() < .08:
            c["over"], c["cap"] = "file", r.choice([1, 13, 64, 8192])
        return c
    # the behaviours of the model
    exps = [b for b in m.msgs if len(b["decs"]) == len(b["exp"])]
    res = ctx.run_cases(number([hand(b["bytes"], b["decs"]) for b in exps]))
    for x, e in zip(res, exps):
        want = [dict(v) for v in e["exp"]]
        for n, (v, p, o) in enumerate(zip(want, e["ends"], x["out"])):
            if n < e["pairs"] and o.get("p") != p:
                v["t"] = "elsewhere"
        if not same(want, x["out"], ("same", "times", "size", "px", "errk")):
            ctx.violation(x, {"expected_by_specification": [e["exp"], e["ends"]]})
    ctx.replayed += len(res)
    # recorded runs
    cases = []
    for _ in range(ctx.pick(500, 8000)):
        b, start = [], 0
        if r.random() < .3:
            b = [r.randrange(256) for _ in range(r.choice([1, 2, 13, 40]))]
            start = len(b)
        for _ in range(r.choice([1, 2, 3, 4, 6])):
            b = b + (g.caption(r, *g.times(r)) if r.random() < .7 else g.spoilt(r, *g.times(r), r.choice(g.SPOILT)))
            if r.random() < .3:     # segments between captions
                b = b + sum((g.filler(r, 5) for _ in range(r.choice([1, 2, 3]))), [])
        if r.random() < .3:
            b = b + g.lone_set(r)
        cases.append(hand(b, [r.choice(["image", "time"]) for _ in range(r.choice([1, 2, 2, 3, 7]))], start))
    # captions embedded in other data: what follows the last one asked for is not theirs
    for _ in range(ctx.pick(400, 6000)):
        b = [r.randrange(256) for _ in range(r.choice([0, 1, 4, 13]))]
        start, n = len(b), r.choice([1, 1, 2, 3])
        for _ in range(n):
            b = b + (g.caption(r, *g.times(r)) if r.random() < .8 else g.spoilt(r, *g.times(r), r.choice(g.SPOILT)))
        tail = r.choice([[r.randrange(256) for _ in range(r.choice([1, 2, 12, 13, 14, 60]))], [0] * r.choice([1, 13, 40]),
                         [80], [80, 71], [80, 71] + [0] * r.choice([8, 11, 30]), [80, 71] + [255] * 20,
                         list(b"RIFF....LIST"), g.seg(7, 0x81, [1, 2, 3]), g.seg(9, g.ODS, [1]),
                         g.seg(9, g.PDS, [0, 0, 1])[:-1], g.seg(2, g.END, [])[:-1], g.seg(2, g.END, [])])
        c = hand(b + tail, [r.choice(["image", "time"]) for _ in range(r.choice([1, 2, 3]))], start)
        c["max"] = n
        cases.append(c)
    # objects that end where a buffer ends
    for size in (13, 14, 100, 8192):
        for _ in range(ctx.pick(6, 40)):
            b = g.caption(r, 90, 180)
            pad = (-len(b)) % size
            b = b + g.seg(200, g.WDS, [0] * ((pad - 13) % size)) + g.caption(r, 900, 1800) + g.caption(r, 9000, 18000)
            c = hand(b, [r.choice(["image", "time"]) for _ in range(3)])
            c["cap"] = size
            cases.append(c)
    res = ctx.run_cases(number(cases))
    ctx.sample(min(res, key=lambda x: abs(len(x["bytes"]) - 200)))
    ctx.judge("PgsHandTrace", TRACE_CFG.replace("TStream", "HStream").replace("TMode", "HMode").replace("TFault", "HFault"), res)


PLANS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C26": c26}
