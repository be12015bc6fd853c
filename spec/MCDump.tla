------------------------------- MODULE MCDump -------------------------------
(* All initial folders of a bounded family, paths and lists of images.         *)
EXTENDS Dump, Json
CONSTANTS Size, Emit

Img(c) == CASE c = "a" -> [w |-> 1, h |-> 1, px |-> <<7>>] [] c = "b" -> [w |-> 2, h |-> 1, px |-> <<0, 255>>]
            [] c = "c" -> [w |-> 1, h |-> 3, px |-> <<1, 2, 3>>] [] c = "z" -> [w |-> 0, h |-> 2, px |-> <<>>]
Raw(name) == [name |-> name, k |-> "raw", w |-> 0, h |-> 0, c |-> 0, px |-> <<1, 2>>]
Pres == LET d == Dir("d") de == Dir("d/e") IN
    {{}, {d}, {d, de}, {Raw("d")}, {d, Raw("d/e")}, {d, de, Raw("d/e/000000.png"), Raw("d/e/000001.png")},
     {d, de, Dir("d/e/000000.png")}, {d, de, Dir("d/e/000001.png"), Raw("d/e/000002.png")}, {d, Dir("d/000001.png")},
     {d, Raw("d/000000.png"), Raw("d/000002.png"), Raw("d/0.png"), Raw("d/000000.PNG"), Raw("d/1.png")},
     {d, Dir("d/000002.png")}, {d, Raw("d/x"), de, Raw("d/e/y"), Raw("000000.png")}}
Words == UNION {[1..n -> {"a", "b", "c", "z"}] : n \in 0..Size}
MJobs(r) == r
MInit ==
    \E p \in Pres, dirs \in {<<"d">>, <<"d", "e">>, <<"n", "m", "o">>}, w \in Words :
        DumpInitAt([pre |-> p, dirs |-> dirs, imgs |-> [i \in DOMAIN w |-> Img(w[i])], ch |-> 1], "mkdir", p)
Report ==
    /\ Stopped /\ phase' = "reported" /\ UNCHANGED <<run, fs, at, bad>>
    /\ Emit => PrintT("@@" \o ToJson([pre |-> J.pre, dirs |-> J.dirs, imgs |-> J.imgs, ch |-> 1, fs |-> fs, res |-> phase, bad |-> bad]))
MNext == DumpNext \/ Report
MSpec == MInit /\ [][MNext]_dumpVars /\ WF_dumpVars(MNext)

Nodes(f) == {x.name : x \in f}
NameOnce == Cardinality(Nodes(fs)) = Cardinality(fs)
(* Success: exactly the images are at their names, all else is as it was. *)
Mine == {FileName(i - 1) : i \in DOMAIN J.imgs}
Success == phase = "ok" =>
    /\ \A i \in DOMAIN J.imgs : Png(FileName(i - 1), J.imgs[i]) \in fs
    /\ \A x \in J.pre : x.name \notin Mine => x \in fs
    /\ \A x \in fs : x \in J.pre \/ x.name \in Mine \/ x.k = "dir"
Failure == phase = "image" =>
    /\ bad = FileName(at)
    /\ \A i \in 1..at : Png(FileName(i - 1), J.imgs[i]) \in fs
    /\ \A x \in J.pre : x.name \notin {FileName(i) : i \in 0..at} => x \in fs
    /\ \A x \in fs : x \in J.pre \/ x.k = "dir" \/ x.name \in {FileName(i) : i \in 0..at}
NoFolder == phase = "folder" => fs = J.pre /\ bad = Folder
Terminates == <>(phase = "reported")
=============================================================================
