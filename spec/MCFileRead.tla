----------------------------- MODULE MCFileRead -----------------------------
EXTENDS FileRead, TLC
CONSTANT Max
Kinds == {"image", "time", "sub", "idx", "isidx", "issub"}
Whats == {"file", "blank", "link", "dir", "missing", "slash", "under", "nul", "long", "empty", "dangling", "loop", "rawname", "rawgone", "pipe", "dots", "dotsgone", "relative", "relgone", "reldir", "dotsdir", "linkdir"}
Items == UNION {[1..n -> {[t |-> "cap"], [t |-> "err"]}] : n \in 0..Max}
MJobs(r) == r
MInit == \E k \in Kinds, w \in Whats, i \in Items : FrInitAt([kind |-> k, what |-> w, items |-> i])
MSpec == MInit /\ [][FrNext]_frVars /\ WF_frVars(FrNext)
Faithful == J.what \in Readable => \A i \in DOMAIN gave : gave[i] = J.items[i]
Named == J.what \notin Opens /\ phase # "closed" => gave = <<PathError>>
NoItems == J.what \notin Readable => \A i \in DOMAIN gave : gave[i].t # "cap"
Terminates == <>Stopped
=============================================================================
