------------------------------ MODULE DumpTrace ------------------------------
EXTENDS Dump, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
TJobs(r) == Cases[r]
Node(x) == [name |-> x.name, k |-> x.k, w |-> x.w, h |-> x.h, c |-> x.c, px |-> x.px]
NodesOf(s) == {Node(s[i]) : i \in DOMAIN s}
O == Cases[run].out
Ok == /\ Len(O) = 1 /\ O[1].t = "dump" /\ O[1].res = phase /\ O[1].path = bad
      /\ {x \in NodesOf(O[1].files) : phase # "image" \/ x.name # bad \/ x.k = "dir"} = fs
      /\ phase # "image" => Len(O[1].files) = Cardinality(fs)
Judge ==
    /\ Stopped /\ phase' = "judged" /\ UNCHANGED <<run, fs, at, bad>>
    /\ PrintT("@@" \o ToJson([run |-> run, ok |-> Ok, ev |-> IF Ok THEN <<>> ELSE <<phase, bad, fs>>]))
TInit == \E r \in DOMAIN Cases : DumpInitAt(r, "mkdir", NodesOf(Cases[r].pre))
TSpec == TInit /\ [][DumpNext \/ Judge]_dumpVars
=============================================================================
