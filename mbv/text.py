"""idx files, probing, times, writers, areas, dumping, thresholds, several readers, files."""
import os
from . import gen_pgs, gen_text as gt, gen_vob
from .core import ToolError
from .vob import ALL as VOB_ALL, TRACE_CFG as VOB_CFG
from . import vob as vobp

PLAIN = "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n"


# what may stand at the ends of a text or within
EDGES = ["\n", "\r\n", "\r", "\n\r", "\t", " ", "\u00a0", "\u3000", "\ufeff", "\u200b", "\u200e", "\u2028", "\u2029", "\u0085", "\u000b", "\f", "\0", "\x1a", "\x1b", "\x7f",
         "\\N", "\\n", "\\h", "<br>", "<br/>", "&nbsp;", "&", "<", ">", "<i>", "</i>", "<b>", "<font color=\"#fff\">", "</font>", "{\\an8}", "{", "}", "-", "- ", "--", "-->", "--->", " --> ",
         "...", "\u2026", "\u266a", "\u0301", "e\u0301", "\u00e9", "\U0001f3ac", "\ufffd", "\u05d0", "1", "1\n", "2\n00:00:01,000 --> 00:00:02,000\n", "WEBVTT", "NOTE ", "STYLE\n", "REGION\n",
         "\"", "'", "`", "$", "%", "%s", "{}", "{0}", "\\", "/", "#", "@", "[", "]", "(", ")", "\u00ad", "\u201c", "\ufb01"]


def number(cases):
    for i, c in enumerate(cases):
        c["id"] = i
    return cases


def msgs(m):
    if not m.msgs:
        raise ToolError(f"{m.name} printed no behaviour")
    return m.msgs


def judged(ctx, module, cfg, cases, key=lambda r: abs(len(str(r)) - 400)):
    res = ctx.run_cases(number(cases))
    ctx.sample(min(res, key=key))
    ctx.judge(module, cfg, res)
    return res


# ---------------------------------------------------------------- C17
def mc_idx(ctx, alphabet, size, pieces="", faults=False, emit=True):
    cfg = f"""SPECIFICATION MSpec
CONSTANT Data <- MData
CONSTANT Gives <- MGives
CONSTANT Alphabet = {{{",".join('"%s"' % a for a in alphabet)}}}
CONSTANT Size = {size}
CONSTANT Pieces = {{{pieces}}}
CONSTANT Faults = {"TRUE" if faults else "FALSE"}
CONSTANT Emit = {"TRUE" if emit else "FALSE"}
INVARIANT RightResult
INVARIANT LineIsData
PROPERTY Terminates
PROPERTY Forward
CHECK_DEADLOCK FALSE
"""
    return ctx.model("MCIdx", cfg, name=f"MCIdx/{alphabet}/{size}/{pieces}/{faults}", workers=8, heap="6g")


def idx_case(b, fault=-1, cap=8192, chunk=0, intr=0, mode="file", **more):
    return dict(more, fam="idx", bytes=b, fault=fault, cap=cap, chunk=chunk, intr=intr, mode=mode, ekind=(3 * len(b) + 7 * fault) % 17)


def c17(ctx):
    ctx.start_build()
    ms = [mc_idx(ctx, "ABtxyzwvijklcdfuenq", 2, faults=True), mc_idx(ctx, "ABijkcxe", ctx.pick(3, 4)),
          mc_idx(ctx, "Aiken", ctx.pick(1, 2), pieces="1", faults=True, emit=False)]
    if ctx.thorough:
        ms.append(mc_idx(ctx, "ABtxyzwvijklcdfuenq", 3))
    cases, exps = [], []
    for m in ms[:2] + ms[3:]:
        for b in msgs(m):
            for kw in ({}, {"cap": 1}) if len(cases) % 5 == 0 else ({},):
                cases.append(idx_case(b["bytes"], b["fault"], **kw))
                exps.append(b["exp"])
    res = ctx.run_cases(number(cases))
    for x, e in zip(res, exps):
        o = x["out"][0]
        if any(o.get(k) != e[k] for k in e):
            ctx.violation(x, {"expected_by_specification": e})
    ctx.replayed += len(res)
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(1600, 24000)):
        b = gt.text(r) if r.random() < .7 else gt.full(r)
        io = {}
        if r.random() < .4:
            io = {"cap": r.choice([1, 2, 3, 16, 8192]), "chunk": r.choice([0, 1, 2, 7]), "intr": r.choice([0, 2, 3]), "burst": r.choice([0, 0, 5, 40])}
        fault = r.randrange(len(b) + 2) if r.random() < .2 else -1
        cases.append(idx_case(b, fault, **io))
    # a failing read at every offset
    for _ in range(ctx.pick(1, 5)):
        b = gt.text(r, 4, 0, 0)
        cases += [idx_case(b, f, cap=r.choice([1, 5, 8192])) for f in range(len(b) + 1)]
    # every place of a palette line spoilt, and ended there
    for _ in range(ctx.pick(1, 4)):
        t = gt.palette_text(r)
        for i in range(len(t)):
            for c in r.sample("gG/:@`0,. -", ctx.pick(2, 8)):
                cases.append(idx_case(gt.B("palette: " + t[:i] + c + t[i + 1:] + "\n")))
            cases.append(idx_case(gt.B("palette: " + t[:i] + "\n" + "palette: " + t + "\n")))
            cases.append(idx_case(gt.B("palette: " + t[:i])))
    # long files: more than one buffer
    for _ in range(ctx.pick(2, 10)):
        cases.append(idx_case(gt.text(r, 400, 0, 0), chunk=r.choice([0, 1, 100])))
    # long lines, long codes, long tails of blanks
    for n in ctx.pick([100, 4090, 8192], [100, 255, 256, 257, 1000, 4080, 4096, 4097, 8180, 8192, 8200, 65530, 65536, 70000]):
        pal = gt.B("palette: " + gt.palette_text(r))
        idl = gt.B("id: fr, index: 0\n")
        cases += [idx_case(gt.B("id: " + "q" * n + ", index: 3\n") + pal), idx_case(gt.B("#" * n + "\n") + pal + gt.B(" " * n + "\n") + idl),
                  idx_case(gt.B("x" * n + ": y\n") + idl + pal), idx_case(gt.B("x: " + "y" * n + "\n") + pal + [10] + idl),
                  idx_case(idl + gt.B("id: de, index: " + "7" * n) + [13, 10] + pal + gt.B("0" * n)),
                  idx_case(gt.B("\n" * min(n, 200)) + pal + [10] + idl), idx_case(pal + [10] + idl + gt.B("#" * n) + pal)]
    # very many lines: only two of them are written down, the rest is put in where the case is run
    for n in ctx.pick([300, 70000, 1000000], [300, 5000, 70000, 1000000, 4000000]):
        for line in ("# x\n", "timestamp: 00:00:01:001, filepos: 000000000\n", "\n", "\r\n", "alt: a\r\n", "id: en, index: 7\n",
                     "palette: " + gt.palette_text(r) + "\n"):
            head, tail = gt.full(r), gt.text(r, 4, 0, 0)
            if head[-1:] != [10]:
                head += [10]
            line = gt.B(line)
            cases.append(idx_case(head + line * 2 + tail, puff=[len(head), min(n, 40000000 // len(line)), line]))
    for n in range(1, 12):
        for tail in ("", ", index: 0", ", index: ", ", index:", ", index", ", i", ","):
            cases.append(idx_case(gt.B("id: fr, index: 0\nid: " + "abcdefghijklm"[:n] + tail + "\n")))
    # the palette text alone
    for _ in range(ctx.pick(300, 5000)):
        k = r.randrange(4)
        t = gt.palette_text(r, 16 if k else r.choice([15, 17, 3])) if k < 3 else gt.bad_palette(r)
        cases.append(idx_case(gt.B(t + (r.choice(["", "", " ", "x", ", ", ", x", "é"]) if k == 1 else "")), mode="pal"))
    # what stands before, behind and within the lines that count
    full = "000000, f0f0f0, cccccc, 999999, 3333fa, 1111bb, fa3333, bb1111, 33fa33, 11bb11, fafa33, bbbb11, fa33fa, bb11bb, 33fafa, 11bbbb"
    for e in EDGES:
        for key, val in (("palette", full), ("id", "fr, index: 0")):
            for t in (e + key + ": " + val, key + ": " + val + e, key + e + ": " + val, key + ":" + e + " " + val, key + ": " + e + val,
                      key + ": " + val.replace(", ", e + ", ", 1), key + ": " + val.replace(", ", ", " + e, 1), key + ": " + val + "\n" + e + "\n" + e + "x"):
                cases.append(idx_case(gt.B(t + r.choice(["\n", "", "\r\n"]))))
    for f in ("example", "tiny", "tiny-split"):
        try:
            cases.append(idx_case(list(open(f"/repo/fixtures/{f}.idx", "rb").read())))
        except OSError:
            pass
    judged(ctx, "IdxTrace", PLAIN + "CONSTANT Data <- TData\nCONSTANT Gives <- TGives\n", cases)


# ---------------------------------------------------------------- C18
def c18(ctx):
    ctx.start_build()
    cfg = f"""SPECIFICATION MSpec
CONSTANT Files <- MFiles
CONSTANT Small = {ctx.pick(5, 7)}
CONSTANT Emit = TRUE
INVARIANT Answers
INVARIANT NeverBoth
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
    m = ctx.model("MCProbe", cfg, workers=8)
    seen, cases = {}, []
    # Reads may be split in many ways; the answer is one.
    for b in msgs(m):
        key = (tuple(b["bytes"]), b["kind"])
        if key not in seen:
            seen[key] = {"fam": "probe", "bytes": b["bytes"], "kind": b["kind"], "name": "file", "allowed": {}}
            cases.append(seen[key])
        seen[key]["allowed"][b["asked"]] = sorted(b["allowed"])
    res = ctx.run_cases(number(cases))
    for x in res:
        o = x["out"][0]
        if o["t"] != "probe" or o["idx"] not in x["allowed"]["idx"] or o["sub"] not in x["allowed"]["sub"]:
            ctx.violation(x, {"expected_by_specification": x["allowed"]})
    ctx.replayed += len(res)
    r = ctx.rng
    idx, sub = b"# VobSub index file", bytes([0, 0, 1, 0xBA])
    cases = []

    def add(b, kind="file", name=None):
        name = name or r.choice(["file", "x.idx", "x.sub", "a.SUB", ".idx", "sub", "x.idx.sub", "ö.idx", "# VobSub index file"])
        cases.append({"fam": "probe", "bytes": list(b), "kind": kind, "name": name})
    for magic in (idx, sub):
        for i in range(len(magic)):
            for bit in range(8):
                q = bytearray(magic)
                q[i] ^= 1 << bit
                add(bytes(q) + r.choice([b"", b"x", sub, idx]))
            add(magic[:i])
            add(magic[:i] + b"\n")
            add(magic[i + 1:] + idx + sub)
            add(magic[:i] + magic[i + 1:] + b"zz")
            add(magic[:i] + magic[i:i + 1] * 2 + magic[i + 1:])
        for n in (0, 1, 2, 100, 5000, 70000):
            add(magic + bytes(r.randrange(256) for _ in range(n)))
    if ctx.thorough:
        for i in range(4):
            for v in range(256):
                q = bytearray(sub)
                q[i] = v
                add(bytes(q))
    for _ in range(ctx.pick(300, 5000)):
        add(bytes(r.choice([0, 0, 1, 0xBA, 35, 32, 86, r.randrange(256)]) for _ in range(r.choice([0, 1, 3, 4, 5, 18, 19, 20, 40]))))
    # what comes through a pipe, in pieces
    for magic in (idx, sub):
        for _ in range(ctx.pick(12, 60)):
            q = magic + r.choice([b"", b"x", b"zz" * 40])
            if r.random() < .3:
                q = q[:r.randrange(len(q))] + r.choice([b"", b"?"]) + q[r.randrange(len(q)):]
            add(q)
            cases[-1].update(pipe=True, pieces=sorted(r.sample(range(1, 20), r.choice([0, 1, 2, 3]))))
    for kind in ("dir", "missing"):
        for name in ("x.idx", "x.sub", "file"):
            add(b"", kind, name)
    for f in ("example", "tiny", "tiny-split"):
        for e in ("idx", "sub"):
            try:
                add(open(f"/repo/fixtures/{f}.{e}", "rb").read()[:4000])
            except OSError:
                pass
    judged(ctx, "ProbeTrace", PLAIN + "CONSTANT Files <- TFiles\n", cases)


# ---------------------------------------------------------------- C19
def digs(v):
    return {"neg": v < 0, "d": [int(c) for c in str(abs(v))]}


TOP = (1 << 63) - 1


def rnd_ms(r):
    k = r.randrange(8)
    if k == 0:
        v = r.randrange(1000)
    elif k == 1:
        v = r.randrange(100 * 3600000)
    elif k == 2:
        v = r.getrandbits(r.randrange(1, 64))
    elif k == 3:
        v = r.choice([1000, 60000, 3600000, 36000000, 360000000, 3600000000]) * r.randrange(1, 1 << r.randrange(1, 31)) + r.choice([-1, 0, 1, 999, 59999])
    elif k == 4:
        v = 10 ** r.randrange(19) + r.choice([-1, 0, 1])
    elif k == 5:
        v = (1 << r.randrange(64)) + r.choice([-1, 0, 1])
    elif k == 6:
        v = TOP - r.randrange(5000)
    else:
        v = r.randrange(10 * 60000)
    v = min(v, TOP)
    return -v if r.random() < .5 else v


def c19(ctx):
    ctx.start_build()
    ctx.prove("ArithProof", "Digits")
    ctx.prove("ArithProof", "Fields")
    cfg = f"""SPECIFICATION Spec
CONSTANT Jumps = {{{ctx.pick("1, 997, 59001, 3599989, 100000003", "1, 999, 59001, 3540007, 30000001")}}}
CONSTANT LastMs = {ctx.pick(300000000, 2000000000)}
CONSTANT High <- MHigh
CONSTANT Emit = TRUE
INVARIANT Denoted
INVARIANT Arithmetic
INVARIANT Undoes
INVARIANT Shape
INVARIANT Ordered
INVARIANT Seconds
CHECK_DEADLOCK FALSE
"""
    # Bounded breadth: the clock makes few steps of each kind.
    n = ctx.pick(7, 9)
    cfg = cfg.replace("CONSTANT Emit", f"CONSTANT Steps = {n}\nCONSTANT Emit")
    m = ctx.model("MCTime", cfg, workers=8, heap="6g")
    cases = []
    for b in msgs(m):
        if b["neg"] or True:
            cases.append(dict(b, fam="time", mode="time", neg2=False, d2=[0]))
    res = ctx.run_cases(number(cases))
    for x in res:
        o = x["out"][0]
        if o["t"] != "time" or any(o[k] != x[k] for k in ("srt", "vtt", "idx")) or abs(o["diff"]) > 1:
            ctx.violation(x, {"expected_by_specification": {k: bytes(x[k]).decode() for k in ("srt", "vtt", "idx")}})
    ctx.replayed += len(res)
    r = ctx.rng
    vals = {0, 1, -1, 999, -999, 1000, -1000, 59999, 60000, 3599999, 3600000, 35999999, 36000000, 359999999, 360000000, TOP, -TOP, -TOP - 1,
            (1 << 53) - 1, 1 << 53, -(1 << 53) + 1, (1 << 31) - 1, 1 << 31, 1 << 32}
    while len(vals) < ctx.pick(3000, 60000):
        vals.add(rnd_ms(r))
    vals = sorted(vals)
    cases = []
    for i, v in enumerate(vals):
        w = r.choice([v, -v if v > -TOP - 1 else v, vals[i - 1], vals[(i + 1) % len(vals)], r.choice(vals), v - 1 if v > -TOP - 1 else v, v // 10])
        o = digs(w)
        cases.append(dict(digs(v), fam="time", mode="time", neg2=o["neg"], d2=o["d"]))
    # seconds
    for _ in range(ctx.pick(800, 8000)):
        n = r.choice([r.randrange(3000), r.randrange(1 << 20), 1024 * r.randrange(1 << 20), r.getrandbits(r.randrange(1, 43))])
        cases.append(dict(digs(-n if r.random() < .5 else n), fam="time", mode="secs"))
    for s in ("nan", "inf", "-inf", "1e300", "-1e300", "9.3e15", "-9.3e15", "9223372036854776", "1e19", "-1e16", "1.8446744073709552e16"):
        cases.append(dict(digs(0), fam="time", mode="refuse", of=s))
    judged(ctx, "TimeTrace", PLAIN, cases)


# ---------------------------------------------------------------- C20
def c20(ctx):
    ctx.start_build()
    cfg = f"""SPECIFICATION MSpec
CONSTANT Jobs <- MJobs
CONSTANT Texts = {{"e", "z", "a", "l", "b", "u", "n", "p"}}
CONSTANT Takes = {{1, {ctx.pick("40", "7, 1000")}}}
CONSTANT Intr = {ctx.pick(0, 1)}
CONSTANT Emit = TRUE
INVARIANT Prefix
INVARIANT Honest
PROPERTY Terminates
PROPERTY InOrder
CHECK_DEADLOCK FALSE
"""
    m = ctx.model("MCWriter", cfg, workers=8, heap="6g")
    seen, cases = set(), []
    for b in msgs(m):
        key = str(b)
        if key in seen:
            continue
        seen.add(key)
        k = len(cases) % 4
        cases.append({"fam": "srt", "mode": b["mode"], "num": b["num"], "subs": b["subs"], "fail": b["fail"], "zero": k == 3,
                      "chunk": [0, 1, 3, 2][k], "intr": [0, 2, 0, 3][k], "once": len(cases) % 3 == 1, "ekind": len(cases) % 17, "exp": [b["res"], b["bytes"]]})
    res = ctx.run_cases(number(cases))
    for x in res:
        o = x["out"][0]
        want = "ok" if x["exp"][0] == "ok" else "othererr" if x["zero"] else "injected"
        if o["res"] != want or o["bytes"] != x["exp"][1]:
            ctx.violation(x, {"expected_by_specification": x["exp"]})
    ctx.replayed += len(res)
    r = ctx.rng
    cases = []

    def words():
        k = r.randrange(6)
        if k == 0:
            return ""
        if k == 1:
            return "".join(r.choice("ab \n\r\té€🎬{}%\\\"0:>-") for _ in range(r.randrange(30)))
        if k == 2:
            return r.choice(["\n", "\n\n", " x ", "00:00:00,000 --> 00:00:01,000", "1", "a\r\nb", "{0}", "\u0000", "-->", "\ufeffx", "x\n"])
        return " ".join(r.choice(["Hello", "world", "été", "<i>x</i>", "&amp;", "—"]) for _ in range(r.randrange(1, 12)))

    def sub():
        a = rnd_ms(r)
        b = r.choice([a, a, min(a + 1, TOP), -a if a >= -TOP else a]) if r.random() < .3 else rnd_ms(r)
        return {"s": digs(a), "e": digs(b), "text": gt.B(words())}
    for _ in range(ctx.pick(700, 12000)):
        mode = r.choice(["srt", "srt", "srtline", "vtt"])
        n = r.choice([0, 1, 2, 3, 5, 12]) if mode == "srt" else 1
        subs = [sub() for _ in range(n)]
        for k in range(1, n):       # the same again, in part or as a whole
            if r.random() < .15:
                subs[k] = dict(subs[k - 1]) if r.random() < .5 else dict(subs[k], **{f: subs[k - 1][f] for f in r.choice([["s"], ["e"], ["text"], ["s", "e"]])})
        size = sum(70 + len(s["text"]) for s in subs)
        cases.append({"fam": "srt", "mode": mode, "num": r.choice([0, 1, 9, 10, 99, 100, 12345, 2147483647]), "subs": subs,
                      "fail": r.randrange(size + 2) if r.random() < .4 else -1, "zero": r.random() < .3,
                      "chunk": r.choice([0, 0, 1, 2, 5, 13]), "intr": r.choice([0, 0, 2, 3, 5]), "ekind": r.randrange(17), "once": r.random() < .5})
    # nothing of a text is changed, whatever stands at its ends or within
    edges = EDGES
    for k, e in enumerate(edges):
        for t in (e + "x", "x" + e, e, "x" + e + "y", e + e, "x" + e + e, e + e + "x", "a\n" + e + "b", "a" + e + "\nb"):
            for mode in ctx.pick([("srt", "srtline", "vtt")[k % 3]] if len(e) > 2 else ("srt", "vtt"), ("srt", "srtline", "vtt")):
                cases.append({"fam": "srt", "mode": mode, "num": 7, "subs": [dict(sub(), text=gt.B(t)) for _ in range(2 if mode == "srt" else 1)], "fail": -1, "zero": False, "chunk": 0, "intr": 0})
    # long lists: numbers of several digits
    for n in ctx.pick([110, 1100], [110, 1100, 12000]):
        cases.append({"fam": "srt", "mode": "srt", "num": 1, "subs": [sub() for _ in range(n)], "fail": -1, "zero": False, "chunk": 0, "intr": 0})
    n = ctx.pick(65600, 100010)
    cases.append({"fam": "srt", "mode": "srt", "num": 1, "subs": [{"s": digs(i), "e": digs(i + 1), "text": []} for i in range(n)],
                  "fail": -1, "zero": False, "chunk": 0, "intr": 0})
    # a sink that fails at every offset of some texts
    for mode in ("srt", "srtline", "vtt"):
        subs = [sub() for _ in range(2 if mode == "srt" else 1)]
        for f in range(sum(75 + len(s["text"]) for s in subs)):
            cases.append({"fam": "srt", "mode": mode, "num": 17, "subs": subs, "fail": f, "zero": f % 3 == 1, "chunk": f % 5, "intr": (0, 2, 3, 5)[f % 4], "ekind": f % 17, "once": f % 2 == 0})
    # a sink that fails only for a moment, in each way
    for mode in ("srt", "srtline", "vtt"):
        for k in range(17):
            subs = [sub() for _ in range(2 if mode == "srt" else 1)]
            for f in r.sample(range(sum(40 + len(s["text"]) for s in subs)), ctx.pick(8, 30)):
                cases.append({"fam": "srt", "mode": mode, "num": 17, "subs": subs, "fail": f, "zero": False, "chunk": r.choice([0, 1, 1, 2, 5]), "intr": 0, "ekind": k, "once": True})
    judged(ctx, "WriterTrace", PLAIN + "CONSTANT Jobs <- TJobs\n", cases)


# ---------------------------------------------------------------- C21
def c21(ctx):
    ctx.start_build()
    coords = ctx.pick("0, 1, 2, 255, 256, 32767, 32768, 65534, 65535", "0, 1, 2, 15, 254, 255, 256, 257, 4095, 4096, 32767, 32768, 65533, 65534, 65535")
    cfg = f"SPECIFICATION Spec\nCONSTANT Coords = {{{coords}}}\nCONSTANT Emit = TRUE\nINVARIANT Inside\nINVARIANT Refused\nCHECK_DEADLOCK FALSE\n"
    m = ctx.model("MCArea", cfg, workers=8)
    cases = [dict(b["c"], fam="area", exp=b["a"]) for b in msgs(m)]
    res = ctx.run_cases(number(cases))
    for x in res:
        if x["out"] != [x["exp"]]:
            ctx.violation(x, {"expected_by_specification": x["exp"]})
    ctx.replayed += len(res)
    r = ctx.rng
    cases = []
    for _ in range(ctx.pick(5000, 60000)):
        def pair():
            a = r.choice([0, 1, 65535, r.randrange(65536), r.randrange(4096)])
            k = r.randrange(4)
            b = a + r.choice([-1, 0, 1, 2]) if k == 0 else (a ^ (1 << r.randrange(16))) if k == 1 else r.randrange(65536)
            return a, min(max(b, 0), 65535)
        (x1, x2), (y1, y2) = pair(), pair()
        cases.append({"fam": "area", "x1": x1, "y1": y1, "x2": x2, "y2": y2})
    judged(ctx, "AreaTrace", PLAIN, cases)


# ---------------------------------------------------------------- C22
def c22(ctx):
    ctx.start_build()
    cfg = f"""SPECIFICATION MSpec
CONSTANT Jobs <- MJobs
CONSTANT Size = {ctx.pick(3, 4)}
CONSTANT Emit = TRUE
INVARIANT NameOnce
INVARIANT Success
INVARIANT Failure
INVARIANT NoFolder
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
    m = ctx.model("MCDump", cfg, workers=8)
    srt = lambda f: sorted(f, key=lambda x: x["name"])
    cases = []
    for b in msgs(m):
        pre = srt(b["pre"])
        cases.append({"fam": "dump", "pre": pre, "dirs": b["dirs"], "path": "/".join(b["dirs"]), "imgs": b["imgs"], "ch": 1,
                      "exp": [b["res"], b["bad"], srt(b["fs"])]})
    res = ctx.run_cases(number(cases))
    for x in res:
        o = x["out"][0]
        res_, bad, fs = x["exp"]
        if o["t"] != "dump" or o["res"] != res_ or o["path"] != bad \
                or srt([f for f in o["files"] if not (res_ == "image" and f["name"] == bad and f["k"] != "dir")]) != fs:
            ctx.violation(x, {"expected_by_specification": x["exp"]})
    ctx.replayed += len(res)
    r = ctx.rng
    cases = []
    none = {"w": 0, "h": 0, "c": 0, "px": []}

    def image(ch):
        w, h = r.choice([(1, 1), (1, 5), (3, 2), (8, 3), (17, 4), (40, 1)])
        if r.random() < .03:
            w, h = r.choice([(0, 0), (0, 3), (3, 0)])
        return {"w": w, "h": h, "px": [r.choice([0, 255, r.randrange(256)]) for _ in range(w * h * (ch % 10) * (2 if 10 < ch < 20 else 1))]}
    root = os.geteuid() == 0
    odd = [" d", "d ", "d\t", "\td", "d\n", "d.", ".d", "..d", "d,e", "d%20e", "~", "-d", "d*", "d?", "$d", "d\\e", "\u00a0d\u3000",
           "D", "{}", "d" * 200]
    for _ in range(ctx.pick(400, 5000)):
        dirs = r.choice([["d"], ["d", "e"], ["a b", "é"], ["d", "e", "f", "g"], ["000000.png"], ["d.png", "x"], [r.choice(odd)],
                         ["d", r.choice(odd)]])
        ch = r.choice([1, 2, 3, 4, 1, 2, 3, 4, 11, 14, 23])
        n = r.choice([0, 1, 2, 3, 11, 12])
        pre = {}

        def put(comps, kind):
            for i in range(1, len(comps)):
                p = "/".join(comps[:i])
                if pre.setdefault(p, "dir") != "dir":
                    return
            pre.setdefault("/".join(comps), kind)
        if r.random() < .6:
            put(dirs[:r.randrange(1, len(dirs) + 1)], r.choice(["dir"] * 6 + ["raw"]))
            for _ in range(r.choice([0, 1, 2, 4])):
                put(dirs + [r.choice(["%06d.png" % r.randrange(n + 2), "%06d.PNG" % r.randrange(3), "x", "%d.png" % r.randrange(3), "%06d.png" % 10])],
                    r.choice(["raw", "raw", "raw", "dir"]))
            put([r.choice(["other", "000000.png", "d2"])], "raw")
        plist = []
        for name in sorted(pre):
            plist.append(dict(none, name=name, k=pre[name], px=[r.randrange(256) for _ in range(r.choice([3, 3, 0, 600]))] if pre[name] == "raw" else []))
            if pre[name] == "raw" and r.random() < .3:      # a picture that is there already
                w, h = r.choice([(1, 1), (3, 2), (70, 9)])
                plist[-1].update(k="png", w=w, h=h, c=1, px=[r.randrange(256) for _ in range(w * h)])
            if pre[name] == "raw" and root and r.random() < .3:
                plist[-1]["ro"] = True
        path = "/".join(dirs)
        if r.random() < .2:
            path = r.choice([path + "/", "./" + path, path.replace("/", "//")])
        cases.append({"fam": "dump", "pre": plist, "dirs": dirs, "path": path, "imgs": [image(ch) for _ in range(n)], "ch": ch})
    # more images than digits of a byte
    for n in ctx.pick([120, 1010], [120, 1010, 2500]):
        cases.append({"fam": "dump", "pre": [], "dirs": ["d"], "path": "d", "ch": 1,
                      "imgs": [{"w": 1, "h": 1, "px": [i % 256]} for i in range(n)]})
    # large pictures
    for ch in (1, 4):
        w, h = 300, 5
        cases.append({"fam": "dump", "pre": [], "dirs": ["d"], "path": "d", "ch": ch,
                      "imgs": [{"w": w, "h": h, "px": [r.randrange(256) for _ in range(w * h * ch)]}]})
    judged(ctx, "DumpTrace", PLAIN + "CONSTANT Jobs <- TJobs\n", cases)


# ---------------------------------------------------------------- C23
def c23(ctx):
    ctx.start_build()
    cfg = f"SPECIFICATION Spec\nCONSTANT N = {ctx.pick(5, 8)}\nINVARIANT SameRuns\nINVARIANT Monotone\nCHECK_DEADLOCK FALSE\n"
    ctx.model("MCLuma", cfg, workers=8)
    r = ctx.rng
    table = [0, 1, 2, 100, 127, 128, 254, 255]
    cases = [{"fam": "luma", "bits": 8, "lt": lt, "at": at} for lt in table for at in table]
    for _ in range(ctx.pick(100, 2500)):
        cases.append({"fam": "luma", "bits": 8, "lt": r.randrange(256), "at": r.randrange(256)})
    near = lambda t: r.choice([t, t, max(t - 1, 0), min(t + 1, 65535), 0, 65535, r.randrange(65536), r.randrange(256)])
    for _ in range(ctx.pick(4000, 60000)):
        lt, at = (r.choice(table), r.choice(table)) if r.random() < .5 else (r.randrange(65536), r.randrange(65536))
        cases.append({"fam": "luma", "bits": 16, "lt": lt, "at": at, "l": near(lt), "a": near(at)})
    for _ in range(ctx.pick(3000, 30000)):
        prim = r.choice(["f32", "f64", "f32", "f64", "i8", "i16", "i32", "u32", "u64", "i64"])
        float = prim[0] == "f"
        lo, hi = {"i8": (-128, 127), "i16": (-32768, 32767), "u32": (0, 2000000000), "u64": (0, 2000000000)}.get(
            prim, r.choice([(0, 1024), (-3000, 4000)]) if float else (-2000000000, 2000000000))     # floats: in 1024ths
        one = lambda: r.choice([lo, hi, min(hi, 1024), 0, 1, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)])
        lt, at = (r.choice([0, 1, 2, 100, 127]) * (1024 if float else 1) for _ in "la") if r.random() < .3 else (one(), one())
        l, a = (min(max(r.choice([t, t, t + 1, t - 1, one()]), lo), max(hi, t)) for t in (lt, at))
        if float and r.random() < .3:       # infinities, and what is no number
            q = [l, a, lt, at]
            for _ in range(r.choice([1, 1, 2, 4])):
                q[r.randrange(4)] = r.choice([2000000000, -2000000000, 2000000001])
            l, a, lt, at = q
        cases.append({"fam": "luma", "bits": 0, "prim": prim, "lt": lt, "at": at, "l": l, "a": a})
    # the special numbers among floats, all together
    special = [0, 1024, 512, -1024, 1536, 2000000000, -2000000000, 2000000001]
    for prim in ("f32", "f64"):
        for a in special:
            for t in special:
                cases.append({"fam": "luma", "bits": 0, "prim": prim, "lt": (x := r.choice([0, -1024, -2000000000])), "at": t, "l": max(x, r.choice([0, 1024])), "a": a})
                cases.append({"fam": "luma", "bits": 0, "prim": prim, "lt": t, "at": (x := r.choice([0, -1024, -2000000000])), "l": a, "a": max(x, r.choice([0, 1024]))})
                cases.append({"fam": "luma", "bits": 0, "prim": prim, "lt": r.choice(special), "at": t, "l": r.choice(special), "a": a})
    judged(ctx, "LumaTrace", PLAIN, cases)
    ctx.notes["pixels"] = "8 bits: all 65536 pixels for every pair of thresholds listed; 16 bits: pixels around the thresholds"


# ---------------------------------------------------------------- C24
def c24(ctx):
    ctx.start_build()
    ms = []
    for alphabet, n in ctx.pick([("PA1E", 4)], [("PA1E", 5), ("A1zE", 5)]):
        cfg = f"""SPECIFICATION Spec
CONSTANT Alphabet = {{{",".join('"%s"' % a for a in alphabet)}}}
CONSTANT MaxItems = {n}
CONSTANT Modes = {{"image", "time"}}
CONSTANT Emit = TRUE
INVARIANT AsAlone
PROPERTY Refines
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
        ms.append(ctx.model("MCReaders", cfg, name=f"MCReaders/{alphabet}/{n}", workers=8, heap="8g"))
    r = ctx.rng
    # Every interleaving of the model, made long enough to go on after the end.
    cases = []
    for m in ms:
        for b in msgs(m):
            s = [int(x) for x in b["sched"]]
            cases.append({"fam": "inter", "kind": b["kind"], "bytes": b["bytes"], "readers": 2, "sched": plain(s + [0, 1]), "alone": len(s) + 2})
    ctx.replayed += len(cases)
    for _ in range(ctx.pick(300, 5000)):
        k = r.choice(["image", "time", "vob"])
        b = gen_vob.stream(r, [r.choice(["good", "good", "bad"]) for _ in range(r.choice([1, 2, 3, 5]))]) if k == "vob" else \
            (gen_pgs.stream(r) if r.random() < .6 else gen_pgs.mutate(r, gen_pgs.stream(r)))
        n = r.choice([1, 2, 3, 4])
        per = r.choice([3, 8, 12])
        s = [i for i in range(n) for _ in range(per)]
        style = r.randrange(3)
        if style == 0:
            r.shuffle(s)
        elif style == 1:
            s = [i for _ in range(per) for i in range(n)]
        # enough requests to reach the end
        enough = len(b) // 13 + 3
        s = plain(s)
        if r.random() < .6:
            for q in s:
                if r.random() < .4:
                    q[1:] = [r.choice(["nth", "skip", "take"]), r.choice([0, 0, 1, 1, 2, 3, 7, 100])]
        s += [[i, o, 0] for i in range(n) for o in ([r.choice(["count", "last", "fold"])] if r.random() < .5 else ["next"] * min(enough, 60))]
        cases.append({"fam": "inter", "kind": k, "only": r.choice(["times", "both"]), "bytes": b, "readers": n, "sched": s, "alone": per + enough})
    # tiny images of the same few colours, whose palettes list them in any order
    for _ in range(ctx.pick(150, 2000)):
        ids = r.sample(range(1, 256), r.choice([1, 2, 3])) if r.random() < .5 else [1, 2, 3][:r.choice([2, 3])]
        b = []
        for q in range(r.choice([1, 2, 3, 5])):
            listed = ids + r.sample([i for i in range(256) if i not in ids], r.choice([0, 0, 1, 2]))
            r.shuffle(listed)
            data = [r.choice(ids) for _ in range(r.choice([1, 2, 3]))]
            b += gen_pgs.pds(90 * q, [(i, r.randrange(256), r.randrange(256)) for i in listed]) + gen_pgs.ods_one(90 * q, len(data), 1, data + [0, 0]) \
                + gen_pgs.seg(90 * q, 0x80) + gen_pgs.seg(90 * q + 45, 0x80)
        n = r.choice([2, 3])
        s = [i for i in range(n) for _ in range(7)]
        r.shuffle(s)
        cases.append({"fam": "inter", "kind": "image", "bytes": b, "readers": n, "sched": plain(s), "alone": 8})
    # captions that lack this or that, pictures without rows or columns
    for _ in range(ctx.pick(200, 3000)):
        b = []
        for q in range(r.choice([1, 2, 3, 4])):
            if r.random() < .6:
                b += gen_pgs.pds(90 * q, [(i, r.randrange(256), r.randrange(256)) for i in r.sample(range(4), r.choice([0, 1, 2]))])
            for _ in range(r.choice([0, 1, 1, 1, 2])):
                b += gen_pgs.ods_one(90 * q, r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 1, 2]), r.choice([[], [], [0, 0], [1, 2], [3, 0, 0], [0]]))
            b += gen_pgs.seg(90 * q, 0x80) + (gen_pgs.seg(90 * q + 45, 0x80) if r.random() < .9 else [])
        n = r.choice([2, 3])
        s = [i for i in range(n) for _ in range(6)]
        r.shuffle(s)
        cases.append({"fam": "inter", "kind": "image", "bytes": b, "readers": n, "sched": plain(s), "alone": 8})
    # data that are still being written, decoders of one's own
    for _ in range(ctx.pick(250, 3000)):
        k = r.choice(["image", "time", "own"])
        if k == "own":
            b = [r.choice([0, 1, 2, 7, 200, 254, 255]) for _ in range(r.choice([1, 2, 5, 12]))]
        else:
            b = gen_pgs.stream(r, r.choice([1, 2, 3]))
        enough = (len(b) if k == "own" else len(b) // 13) + 3
        cut = r.choice([len(b), 0, r.randrange(len(b) + 1), r.randrange(len(b) + 1)])
        n = r.choice([1, 2])
        s = plain([i for _ in range(min(enough, 40)) for i in range(n)])
        for q in s:
            if r.random() < .15:
                q[1:] = [r.choice(["nth", "skip", "take"]), r.choice([0, 1, 2])]
        c = {"fam": "inter", "kind": k, "bytes": b, "readers": n, "sched": s, "alone": enough + 2}
        if k != "own" or r.random() < .5:
            c.update(grow=cut, cap=r.choice([1, 13, 64, 8192]), chunk=r.choice([0, 0, 1, 7]))
        cases.append(c)
    # idx files
    for _ in range(ctx.pick(250, 4000)):
        texts = [gt.text(r, r.choice([0, 1, 2, 3, 5])) if r.random() < .6 else gt.full(r) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .5:
            texts.insert(r.randrange(len(texts) + 1), gt.B("id: " + r.choice(["--", "en", "", "EN", "12", "-"]) + ", index: " + r.choice("09") + "\n"))
        n = r.choice([1, 2, 3])
        s = [i for i in range(n) for _ in range(len(texts) + 1)]
        r.shuffle(s)
        cases.append({"fam": "inter", "kind": "idx", "bytes": [], "texts": texts, "readers": n, "sched": plain(s), "alone": len(texts) + 2})
    # after streams with small packets, one with large packets
    for n in ctx.pick([3000, 30000], [2049, 3000, 8000, 30000, 65000]):
        b = gen_vob.packet(gen_vob.fat(r, n), 9000) + gen_vob.stream(r)
        cases.append({"fam": "inter", "kind": "vob", "only": "both", "bytes": b, "readers": 2, "sched": plain([0, 1] * 6), "alone": 12})
    # much of the same in front of what is looked at: packets of another stream, bad subtitles, captions
    for n in ctx.pick([300, 3000], [300, 3000, 70000]):
        raw = gen_vob.rnd_sub(r)
        head = gen_vob.packet(raw[:5], 9000)
        b = head + gen_vob.packet(raw[5:]) + gen_vob.stream(r, ["good", "bad", "good"])
        cases.append({"fam": "inter", "kind": "vob", "only": "both", "bytes": b, "puff": [len(head), n, gen_vob.packet([1, 2, 3], sid=0x21)], "readers": 2, "sched": plain([0, 1] * 12), "alone": 60})
    n = ctx.pick(130, 300)
    bad = gen_vob.packet(gen_vob.rnd_sub(r, "zeroarea"), 90)
    cases.append({"fam": "inter", "kind": "vob", "only": "both", "bytes": gen_vob.stream(r), "puff": [0, n, bad], "readers": 2, "sched": [[0, "nth", n - 1], [1, "nth", n - 3]] + plain([0, 1] * 8), "alone": n + 60})
    for k in ("image", "time"):
        b = gen_pgs.seg(90, 0x14, [0, 0, 1, 50, 0, 0, 60]) + gen_pgs.ods_one(90, 1, 1, [1]) + gen_pgs.seg(90, 0x80) + gen_pgs.seg(180, 0x80)
        cases.append({"fam": "inter", "kind": k, "bytes": gen_pgs.stream(r, 2), "puff": [0, n, b], "readers": 2, "sched": [[0, "nth", n - 2], [1, "nth", n - 3]] + plain([0, 1] * 4), "alone": n + 60})
    # in another process, what was read before is another thing
    number(cases)
    other = {x["id"]: x["out"] for x in ctx.run_cases(cases[::-1])}
    res = ctx.run_cases(cases)
    for x in res:
        if isinstance(x["out"], dict):
            o = other.get(x["id"])
            x["out"]["other"] = o["alone"] if isinstance(o, dict) else [{"t": "panic"}]
    ctx.sample(min(res, key=lambda x: abs(len(x["bytes"]) - 200)))
    cfg = PLAIN + "CONSTANT Items <- TItems\nCONSTANT Count <- TCount\n"
    ctx.judge("ReadersTrace", cfg, res)


def plain(s):
    return [[i, "next", 0] for i in s]


# ---------------------------------------------------------------- C25
def c25(ctx):
    ctx.start_build()
    cfg = f"""SPECIFICATION MSpec
CONSTANT Jobs <- MJobs
CONSTANT Max = {ctx.pick(3, 5)}
INVARIANT Faithful
INVARIANT Named
INVARIANT NoItems
PROPERTY Terminates
CHECK_DEADLOCK FALSE
"""
    ctx.model("MCFileRead", cfg, workers=4)
    r = ctx.rng
    cases = []
    kinds = ["image", "time", "sub", "idx", "isidx", "issub"]

    def content(kind):
        if kind in ("image", "time"):
            return gen_pgs.stream(r)
        if kind == "sub":
            b = gen_vob.stream(r, [r.choice(["good", "good", "bad"]) for _ in range(r.choice([1, 2, 3]))])
            if r.random() < .4:
                # whole sectors, whose last bytes belong to the subtitle or do not
                raw = gen_vob.raw_sub([0, 1, 0, 2], [(0, [1, 3, 1, 2, 4, 3, 4] + gen_vob.area_cmd(1, 4, 2, 3) + [6, 0, 4, 0, 6, 255]), (9, [2, 255])],
                                      tail=[r.choice([0, 255])] * r.choice([1, 2, 40, 300]))
                b = b + gen_vob.packet(raw, 90 * r.randrange(99999)) + r.choice([[], [], [0] * 30, [255] * 30])
                n = r.choice([256, 2048, 2048, 2352, 4096])
                b = [r.choice([0, 0xFF])] * (-len(b) % n) + b
            return b
        if kind == "idx":
            return r.choice([[]] * 7 + [[0xEF, 0xBB, 0xBF], [0xEF, 0xBB, 0xBF, 10], [0xFF, 0xFE], [0xEF, 0xBB], [32], [10]]) + gt.text(r)
        return r.choice([list(b"# VobSub index file"), [0, 0, 1, 0xBA], [], [0, 0], list(b"# VobSub")]) + [r.randrange(256) for _ in range(r.choice([0, 1, 30]))]

    def add(kind, what, b=None):
        cases.append({"fam": "file", "kind": kind, "what": what, "bytes": content(kind) if b is None else b})
    for kind in kinds:
        for what in ("file", "blank", "link", "dir", "missing", "slash", "under", "nul", "long", "empty", "dangling", "loop", "rawname", "rawgone", "dots", "dotsgone",
                     "relative", "relgone", "reldir", "dotsdir", "linkdir"):
            add(kind, what)
        if kind not in ("image", "time"):       # (no place can be sought in a pipe)
            for _ in range(ctx.pick(4, 20)):
                add(kind, "pipe")
                n = len(cases[-1]["bytes"])
                cases[-1]["pieces"] = sorted(r.sample(range(1, n), min(n - 1, r.choice([0, 1, 1, 2])))) if n > 1 else []
        for _ in range(ctx.pick(30, 500)):
            add(kind, "file")
        add(kind, "file", [])
    # what was read from the same place before
    for kind in kinds:
        for _ in range(ctx.pick(40 if kind == "sub" else 12, 150)):
            b, old = content(kind), content(kind)
            if r.random() < .6:
                old = (old + [0] * len(b))[:len(b)] if r.random() < .5 else [x ^ (r.random() < .02) for x in b]
            add(kind, r.choice(["file", "file", "file", "missing"]), b)
            cases[-1]["before"] = old
    for bad in ([0xFF], [0xC3], [0xE2, 0x82], [0xED, 0xA0, 0x80], [0]):
        for style in range(3):
            pal = gt.B("palette: " + gt.palette_text(r) + "\n")
            add("idx", "file", [gt.B("# ") + bad + [10] + pal, pal + gt.B("x") + bad, gt.B("id: fr, index: ") + bad + [13, 10] + pal][style])
    # what stands before the first line
    for lead in ([0xEF, 0xBB, 0xBF], [0xFF, 0xFE], [0xFE, 0xFF], [0xEF, 0xBB], [0], [32], [13], [10], [26], [0x1F, 0x8B]):
        add("idx", "file", lead + gt.B("palette: " + gt.palette_text(r) + "\nid: fr, index: 0\n"))
        add("idx", "file", lead + gt.B("id: fr, index: 0\npalette: " + gt.palette_text(r) + "\n"))
        for kind in ("isidx", "issub", "sub", "image"):
            add(kind, "file", lead + content(kind))
    # sizes around the buffer of a reader, segments and lines across its end
    for base in (8192, 16384):
        for d in ctx.pick((-14, -13, -1, 0, 1), range(-20, 21)):
            for kind in ("image", "time"):
                head = gen_pgs.stream(r, 1)
                # a lone segment of the right length brings the next one to the place
                n = base + d - len(head) - 13
                add(kind, "file", head + gen_pgs.seg(5, 0x17, [r.randrange(256) for _ in range(n)]) + gen_pgs.stream(r, 2))
            add("idx", "file", gt.B("#" * (base + d - 20)) + [10] + gt.B("palette: " + gt.palette_text(r) + "\nid: fr, index: 0\n"))
            add("sub", "file", [0xFF] * (base + d) + gen_vob.stream(r, ["good"] * 2))
    for _ in range(ctx.pick(1, 6)):
        b = []
        while len(b) < 70000:
            b += gen_pgs.stream(r)
        for kind in ("image", "time"):
            add(kind, "file", b)
        b = []
        while len(b) < 70000:
            b += gen_vob.stream(r, ["good"] * 3)
        add("sub", "file", b)
    # large files, whose content comes last
    units = {"image": gen_pgs.seg(5, 0x17, [1] * 4083), "time": gen_pgs.seg(5, 0x17, [1] * 51), "sub": [0xFF] * 64, "idx": gt.B("# 34567\n"),
             "isidx": gt.B("# VobSub index file\n" + "#" * 12), "issub": [0, 0, 1, 0xBA] * 4}
    for kind in kinds:
        for size in ctx.pick((1 << 16, 1 << 17, 1 << 20, r.choice([3 << 20, 5 << 20])), (1 << 15, 1 << 16, 1 << 17, 1 << 18, 1 << 20, 1 << 22, 1 << 24, 1 << 26)):
            for d in (-1, 0, 1):
                b = content(kind) if kind != "idx" else gt.B("palette: " + gt.palette_text(r) + "\nid: fr, index: 0\n")
                if kind == "sub":
                    b = gen_vob.stream(r, ["good"] * 2, noise=False)
                add(kind, "file", b)
                cases[-1].update(unit=units[kind], n=size // len(units[kind]) + d)
    for f in ("tiny", "tiny-split", "example"):
        add("sub", "file", list(open(f"/repo/fixtures/{f}.sub", "rb").read()))
    judged(ctx, "FileTrace", PLAIN + "CONSTANT Jobs <- TJobs\n", cases)
    # The content of sub files read by path is what the specification says.
    subs = [vobp.case(c["bytes"], VOB_ALL) for c in cases if c["kind"] == "sub" and c["what"] == "file" and len(c["bytes"]) < 30000]
    judged(ctx, "VobTrace", VOB_CFG, subs)


PLANS = {"C17": c17, "C18": c18, "C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24, "C25": c25}
