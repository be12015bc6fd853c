------------------------------ MODULE VobRender ------------------------------
(* Rendering of a VobSub bitmap.  A case is [x1, x2, y1, y2, raw, pal, al,    *)
(* palette, border, text, bg, how]: `raw` the runs of two-bit pixels, `pal` and     *)
(* `al` what they stand for, `palette` sixteen colours.                        *)
EXTENDS Render

W(c) == c.x2 - c.x1 + 1
H(c) == c.y2 - c.y1 + 1
(* Luminance of a colour, as defined by the image library. *)
Luminance(p) == (2126 * p[1] + 7152 * p[2] + 722 * p[3]) \div 10000
ColourOf(c, v) == c.palette[c.pal[v + 1] + 1]
AlphaOf(c, v) == c.al[v + 1]
Pic(c, f(_, _)) == <<W(c), H(c), MapRuns(LAMBDA k : f(ColourOf(c, k[1]), AlphaOf(c, k[1])), c.raw)>>
Rgba(c) == Pic(c, LAMBDA p, a : <<p[1], p[2], p[3], a>>)
Odd(c) == Pic(c, LAMBDA p, a : <<a, p[3], p[1], 255 - p[2]>>)
Grey(c) == Pic(c, LAMBDA p, a : IF a > 0 THEN <<Luminance(p)>> ELSE <<0>>)
Shown(p, a) == a > 0 /\ Luminance(p) > 0
Ocr(c) ==
    LET o == OptOf(c)
    IN Bordered(W(c), H(c),
                MapRuns(LAMBDA k : IF Shown(ColourOf(c, k[1]), AlphaOf(c, k[1])) THEN <<o[2]>> ELSE <<o[3]>>, c.raw),
                o[1], <<o[3]>>)
=============================================================================
