------------------------------ MODULE BufPool ------------------------------
(* The pool of recycled buffers (SyncPool) as its users see it, and the programs of users that are
   run on it.  Events: take t, create t i (a new buffer), took t i (the buffer handed out), dirty i /
   big i (it was not empty / has more capacity than allowed), put t i, putend t i, gone t i.      *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Task, Item

Start(n) == [lim |-> n, item |-> [i \in Item |-> "none"], owner |-> [i \in Item |-> 0], new |-> [t \in Task |-> 0], in |-> [t \in Task |-> FALSE],
             full |-> [t \in Task |-> FALSE],   \* while t gave its buffer back there may have been no room for it
             saw |-> [t \in Task |-> FALSE]]    \* while t takes a buffer there may have been none in the pool

Kept(m) == {i \in Item : m.item[i] = "idle"}
Taking(m) == {t \in Task : m.in[t] /\ m.new[t] = 0}
Wrong(m, e) ==
    CASE e.k = "take"   -> ""
      [] e.k = "create" -> IF m.in[e.t] /\ m.new[e.t] = 0 /\ m.item[e.i] = "none" THEN (IF m.saw[e.t] THEN "" ELSE "waste") ELSE "use"
      [] e.k = "took"   -> IF m.new[e.t] = e.i \/ (m.new[e.t] = 0 /\ m.item[e.i] \in {"back", "idle"}) THEN "" ELSE "share"
      [] e.k = "dirty"  -> "dirty"
      [] e.k = "big"    -> "big"
      [] e.k = "put"    -> IF m.item[e.i] = "own" /\ m.owner[e.i] = e.t THEN "" ELSE "use"
      \* the pool keeps no more than its limit, even if some were taken that are not handed out yet
      [] e.k = "putend" -> IF m.item[e.i] = "back" /\ m.owner[e.i] = e.t /\ Cardinality(Kept(m)) + 1 > m.lim + Cardinality(Taking(m)) THEN "over" ELSE ""
      [] e.k = "gone"   -> IF m.item[e.i] = "back" THEN (IF m.full[m.owner[e.i]] THEN "" ELSE "waste") ELSE "share"
      [] e.k = "quiet"  -> IF Cardinality(Kept(m)) > m.lim THEN "over" ELSE ""
      [] e.k = "hang"   -> "hang"
      [] OTHER          -> "unknown event"
Effect(m, e) ==
    CASE e.k = "take"   -> [m EXCEPT !.in[e.t] = TRUE, !.new[e.t] = 0]
      [] e.k = "create" -> [m EXCEPT !.item[e.i] = "own", !.owner[e.i] = e.t, !.new[e.t] = e.i]
      [] e.k = "took"   -> [m EXCEPT !.item[e.i] = "own", !.owner[e.i] = e.t, !.in[e.t] = FALSE, !.new[e.t] = 0]
      [] e.k = "put"    -> [m EXCEPT !.item[e.i] = "back"]
      [] e.k = "putend" -> IF m.item[e.i] = "back" /\ m.owner[e.i] = e.t THEN [m EXCEPT !.item[e.i] = "idle"] ELSE m
      [] e.k = "gone"   -> [m EXCEPT !.item[e.i] = "gone"]
      [] OTHER          -> m
\* every other buffer that is or may already be in the pool
NoRoom(m, t) == Cardinality(Kept(m)) + Cardinality({i \in Item : m.item[i] = "back" /\ m.owner[i] # t}) >= m.lim
\* every buffer in the pool may already have been taken by somebody else
NoneLeft(m, t) == Cardinality(Kept(m)) <= Cardinality({u \in Task \ {t} : m.in[u] /\ m.new[u] = 0})
After(m, e) == LET x == Effect(m, e) IN
               [x EXCEPT !.full = [t \in Task |-> (\E i \in Item : x.item[i] = "back" /\ x.owner[i] = t) /\ (x.full[t] \/ NoRoom(x, t))],
                         !.saw = [t \in Task |-> x.in[t] /\ (x.saw[t] \/ NoneLeft(x, t))]]
Bounded(m) == Cardinality(Kept(m)) <= m.lim + Cardinality(Taking(m))
Exclusive(m) == \A i \in Item : m.item[i] = "own" => m.owner[i] \in Task
=============================================================================
