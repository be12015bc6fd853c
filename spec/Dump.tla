-------------------------------- MODULE Dump --------------------------------
(* Writing images to numbered files of a folder.  The file system is a set of  *)
(* nodes [name, k, w, h, c, px]; k is "dir", "png" (a readable image: w, h,     *)
(* number of channels and samples) or "raw" (other bytes, in px).               *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Jobs(_)       \* [pre, dirs, imgs, ch] of a run
VARIABLES run, phase, fs,
          at,           \* components of the path that are there, then images written
          bad           \* path that could not be written
dumpVars == <<run, phase, fs, at, bad>>
J == Jobs(run)

RECURSIVE Join(_)
Join(c) == IF Len(c) = 1 THEN c[1] ELSE Join(SubSeq(c, 1, Len(c) - 1)) \o "/" \o c[Len(c)]
Folder == Join(J.dirs)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE IF n < 10000 THEN 4 ELSE IF n < 100000 THEN 5 ELSE 6
FileName(n) == Folder \o "/" \o Zeros(6 - Digits(n)) \o ToString(n) \o ".png"

Dir(name) == [name |-> name, k |-> "dir", w |-> 0, h |-> 0, c |-> 0, px |-> <<>>]
Png(name, i) == [name |-> name, k |-> "png", w |-> i.w, h |-> i.h, c |-> J.ch, px |-> i.px]
KindAt(name) == LET n == {x \in fs : x.name = name} IN IF n = {} THEN "none" ELSE (CHOOSE x \in n : TRUE).k
(* A PNG has at least one pixel, and samples of 8 or (ch > 10) 16 bits. *)
Writable(i) == i.w > 0 /\ i.h > 0 /\ J.ch < 20

DumpInitAt(r, p, f) == run = r /\ phase = p /\ fs = f /\ at = 0 /\ bad = ""
MkDir ==
    /\ phase = "mkdir" /\ at < Len(J.dirs)
    /\ LET p == Join(SubSeq(J.dirs, 1, at + 1)) IN
       CASE KindAt(p) = "dir" -> at' = at + 1 /\ UNCHANGED <<fs, phase, bad>>
         [] KindAt(p) = "none" -> fs' = fs \cup {Dir(p)} /\ at' = at + 1 /\ UNCHANGED <<phase, bad>>
         [] OTHER -> phase' = "folder" /\ bad' = Folder /\ UNCHANGED <<fs, at>>
    /\ UNCHANGED run
Ready == phase = "mkdir" /\ at = Len(J.dirs) /\ phase' = "write" /\ at' = 0 /\ UNCHANGED <<run, fs, bad>>
Write ==
    /\ phase = "write" /\ at < Len(J.imgs)
    /\ LET n == FileName(at)
           i == J.imgs[at + 1]
       IN IF KindAt(n) = "dir" \/ ~Writable(i)
          THEN /\ phase' = "image" /\ bad' = n /\ UNCHANGED at
               \* What is left of a file that failed is open.
               /\ fs' = IF KindAt(n) = "dir" THEN fs ELSE {x \in fs : x.name # n}
          ELSE /\ fs' = {x \in fs : x.name # n} \cup {Png(n, i)}
               /\ at' = at + 1 /\ UNCHANGED <<phase, bad>>
    /\ UNCHANGED run
Finish == phase = "write" /\ at = Len(J.imgs) /\ phase' = "ok" /\ UNCHANGED <<run, fs, at, bad>>
DumpNext == MkDir \/ Ready \/ Write \/ Finish
Stopped == phase \in {"ok", "folder", "image"}
=============================================================================
