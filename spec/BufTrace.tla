----------------------------- MODULE BufTrace -----------------------------
(* Traces recorded from the real buffer pool (merged into a graph of events) against BufPool: every event of
   every trace must be allowed by the specification in the state its history leads to.           *)
EXTENDS BufPool, Json, IOUtils

CONSTANT Kinds          \* the reasons to look for

D == JsonDeserialize(IOEnv.TRACES)
Nodes == D.nodes
Roots == D.roots

VARIABLES node, m, bad, at
vars == <<node, m, bad, at>>

Init == /\ \E r \in DOMAIN Roots : node = Roots[r][2] /\ m = Start(Roots[r][1])
        /\ bad = "" /\ at = <<>>
Next == /\ bad = ""
        /\ \E c \in DOMAIN Nodes[node] :
             LET x == Nodes[node][c]
                 e == [k |-> x[1], t |-> x[2], i |-> x[3]]
                 b == Wrong(m, e)
             IN /\ node' = x[4]
                /\ bad' = b
                /\ at' = <<x[1], x[2], x[3]>>
                /\ m' = IF b = "" THEN After(m, e) ELSE m
Spec == Init /\ [][Next]_vars
View == <<node, m, bad>>

Allowed == bad \notin Kinds
Bounds == Bounded(m) /\ Exclusive(m)
=============================================================================
