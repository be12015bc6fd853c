"""Generated idx texts."""
B = lambda s: list(s.encode())
BLANKS = ["", "", "", " ", "  ", "\t", "\u00a0", "\u2003", "\u3000", "\x0b", "\u0085", "\u2028", "\u202f", "\u1680", "\u205f"]
HEX = "0123456789abcdefABCDEF"


def palette_text(r, n=16, sep=", "):
    style = r.randrange(3)
    one = lambda: "".join(r.choice(HEX if style == 0 else HEX[:16] if style == 1 else HEX[:10] + HEX[16:]) for _ in range(6))
    return sep.join(one() for _ in range(n))


def bad_palette(r):
    k = r.randrange(10)
    t = palette_text(r)
    if k == 0:
        return palette_text(r, r.choice([0, 1, 8, 14, 15, 17, 18, 32])) or "x"
    if k == 1:
        return palette_text(r, sep=r.choice([",", " ", ";", " ,", ",  ", ",\t"]))
    if k == 2:
        i = r.randrange(len(t))
        return t[:i] + t[i + 1:]
    if k == 3:
        i = r.randrange(len(t) + 1)
        return t[:i] + r.choice("0gG,-. +x") + t[i:] if i < len(t) else t + r.choice(["0", ",", ", 0", ", 000000", "!"])
    if k == 4:
        i = r.choice([j for j in range(len(t)) if t[j] in HEX])
        return t[:i] + r.choice("gGzZ/:@`{-+ .xé") + t[i + 1:]
    if k == 5:
        return " " + t
    if k == 6:
        return t + ","
    if k == 7:
        return "0x" + t
    if k == 8:
        return t.replace(", ", ",", 1)
    return t[:r.randrange(len(t))].rstrip() or "0"


def setting(r):
    """What an idx file may hold besides."""
    k = r.randrange(16)
    rgb = lambda: "".join(r.choice(HEX) for _ in range(6))
    clock = lambda: ":".join("%02d" % r.randrange(60) for _ in range(3)) + ":%03d" % r.randrange(1000)
    onoff = r.choice(["ON", "OFF", "0", "1", "on"])
    return [
        lambda: f"custom colors: {onoff}, tridx: {r.choice(['0000', '1000', '0100', '1111'])}, colors: {rgb()}, {rgb()}, {rgb()}, {rgb()}",
        lambda: f"custom colours: {onoff}, tridx: 0000, colours: {rgb()}, {rgb()}, {rgb()}, {rgb()}",
        lambda: f"langidx: {r.randrange(32)}",
        lambda: f"timestamp: {clock()}, filepos: {r.randrange(1 << 32):09x}",
        lambda: f"delay: {r.choice(['', '-'])}{clock()}",
        lambda: f"time offset: {r.choice(['0', '-40', clock()])}",
        lambda: f"alpha: {r.randrange(101)}%",
        lambda: f"scale: {r.randrange(201)}%, {r.randrange(201)}%",
        lambda: f"size: {r.choice(['720x576', '1920x1080', '0x0', ''])}",
        lambda: f"org: {r.randrange(720)}, {r.randrange(576)}",
        lambda: f"align: {onoff} at {r.choice(['LEFT TOP', 'CENTER BOTTOM'])}",
        lambda: f"forced subs: {onoff}",
        lambda: f"fadein/out: {r.randrange(200)}, {r.randrange(200)}",
        lambda: f"smooth: {onoff}",
        lambda: r.choice(["alt: ", "# alt: "]) + r.choice(["English", "fr", "Français", "en, index: 0", palette_text(r)]),
        lambda: r.choice(["# English", "# Vob/Cell ID: 1, 1 (PTS: 0)", "# [default palette]", "# 34567", "# --------------------", "[palette]", "colors: " + palette_text(r),
                          "tridx: 0000", "default: " + palette_text(r), "palettes: " + palette_text(r), "lang: de", "language: de, index: 0", "lang id: de, index: 0"]),
    ][k]()


def full(r):
    """A whole idx file as it is found."""
    head = ["# VobSub index file, v7 (do not modify this line!)"]
    body = [setting(r) for _ in range(r.randrange(12))] + ["palette: " + palette_text(r)] * r.choice([0, 1, 1, 1]) + [line(r, 0) for _ in range(r.choice([0, 0, 1]))]
    r.shuffle(body)
    for i in range(r.choice([0, 1, 1, 2, 3])):
        body += [f"id: {r.choice(['en', 'fr', 'de', 'es', '--'])}, index: {i}"] + [setting(r) for _ in range(r.randrange(4))]
    eol = r.choice([[10], [13, 10]])
    return sum((B(x) + eol for x in head + body), [])


def line(r, bad=0.04):
    k = r.random()
    if k < bad:
        return "palette: " + bad_palette(r)
    if k < .25:
        return "palette: " + palette_text(r) + r.choice(BLANKS) + r.choice(BLANKS)
    if k < .45:
        code = r.choice(["en", "fr", "de", "a", "zzz", "e" * r.randrange(1, 40)])
        return "id: " + code + r.choice([", index: 0", ", index: 31", ", index: x y", ", index:  1", ", index: é"]) + r.choice(BLANKS)
    if k < .55:
        return "id: " + r.choice(["--, index: 0", "EN, index: 0", "en", "en, index: ", "en,index: 0", "en, index:0", "en, Index: 0",
                                  ", index: 0", "e n, index: 0", "en , index: 0", "en-US, index: 0", "é, index: 0", "en1, index: 0",
                                  "en, index: 0, index: 1", " en, index: 0", "e"])
    if k < .65:
        return r.choice(["# palette: " + palette_text(r), " palette: " + palette_text(r), "Palette: " + palette_text(r),
                         "palette:" + palette_text(r), "palette : " + palette_text(r), "palette; " + palette_text(r), "palette:",
                         "palette: ", "alt: palette: 00", "xpalette: 1", "palette/x: 1", "id : en, index: 1", "\tid: fr, index: 2",
                         "#id: it, index: 1", "id; pt, index: 1", "ID: pl, index: 0", "id/: pl, index: 0", "id:", "id: ",
                         "\ufeffid: bb, index: 1", "custom colors: OFF, tridx: 0000, colors: 000000, 000000",
                         "langidx: 0", "id:\u00a0ru, index: 0", "\rid: sk, index: 0"])
    return r.choice(["# VobSub index file, v7 (do not modify this line!)", "size: 720x576", "org: 0, 0", "scale: 100%, 100%",
                     "alpha: 100%", "smooth: OFF", "fadein/out: 50, 50", "align: OFF at LEFT TOP", "time offset: 0", "forced subs: OFF",
                     "timestamp: 00:00:01:000, filepos: 000000000", "", "", " ", "#", ":", ": ", "a", "  \u3000", "é: è", "🎬: x", "size: ",
                     "x" * r.randrange(300)])


def text(r, n=None, bad=0.04, nonutf8=0.01):
    n = r.choice([0, 1, 2, 3, 5, 8, 15]) if n is None else n
    style = r.randrange(3)
    out = [0xEF, 0xBB, 0xBF] if r.random() < .04 else []
    for i in range(n):
        out += B(line(r, bad))
        if r.random() < nonutf8:
            out += r.choice([[0xFF], [0xC3], [0xC0, 0x80], [0xE0, 0x80, 0x80], [0xED, 0xA0, 0x80], [0xF5, 0x80, 0x80, 0x80], [0xF0, 0x80, 0x80, 0x80],
                             [0xE2, 0x82], [0xF4, 0x90, 0x80, 0x80], [0x80], [0xC3, 0x28]])
        if i < n - 1 or r.random() < .7:
            out += [10] if style == 0 else [13, 10] if style == 1 else r.choice([[10], [13, 10], [13, 13, 10]])
    return out
