-------------------------------- MODULE Pool --------------------------------
(* The connection pool (AsyncPool) as its users see it: a transition system over the events at the
   pool's boundary.  m is the state, Ok(m, e) says whether event e may happen, After(m, e) is the
   state after it.  The pool's own steps lie between the events: what is not determined by the
   events is kept as what the pool may have done (an item that is on its way back may or may not
   have arrived; a getter may have seen the pool empty at any moment of its poll).

   Events (k: what, t: task, i: item):
     poll t      task t polls its getter (a new one if it has none)
     create t    the getter of t starts to create an item;  made t i / failed t: the outcome
     got t i     the poll returns item i;  err t i: it returns the failure of task i's creation
     pend t      it returns Pending
     wake t      the waker of the getter's last poll was used
     drop t      t begins to drop its getter, dropped t: it is gone
     put t i     t begins to give item i back intact, putbad t i: broken;  putend t i: returned
     gone t i    item i was destroyed
     hang t      t's call into the pool does not end
     quiet       no task can go on: every getter waits (or there is none)                        *)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Task, Item

Ph == {"out", "in", "new", "made", "fail", "wait", "mk", "dropping"}

Start(n) == [lim |-> n,
             item |-> [i \in Item |-> "none"],      \* none own back bad idle gone
             owner |-> [i \in Item |-> 0],
             ph |-> [t \in Task |-> "out"],
             hand |-> [t \in Task |-> 0],           \* the item that t's creation made
             saw |-> [t \in Task |-> FALSE],        \* may have seen no idle item during this poll
             awake |-> [t \in Task |-> FALSE],      \* woken since its last poll began
             lost |-> FALSE]                        \* a creation failed or was abandoned, or a broken item came back

Alive(m) == {i \in Item : m.item[i] \in {"own", "back", "bad", "idle"}}
Making(m) == {t \in Task : m.ph[t] \in {"new", "mk"}}
Used(m) == Cardinality(Alive(m)) + Cardinality(Making(m))
Idle(m) == {i \in Item : m.item[i] = "idle"}
Sleeping(m) == {t \in Task : m.ph[t] = "wait" /\ ~m.awake[t]}
\* t may see the pool empty: every idle item may already have been taken by somebody else's poll
Empty(m, t) == Cardinality(Idle(m)) <= Cardinality({u \in Task \ {t} : m.ph[u] = "in"})
Look(m) == [m EXCEPT !.saw = [t \in Task |-> m.ph[t] = "in" /\ (m.saw[t] \/ Empty(m, t))]]

\* The reason why event e must not happen in m ("" if it may).
Wrong(m, e) ==
    CASE e.k = "poll"    -> IF m.ph[e.t] \in {"out", "wait", "mk"} THEN "" ELSE "use"
      [] e.k = "create"  -> IF m.ph[e.t] # "in" THEN "use"
                            ELSE IF Used(m) >= m.lim THEN "limit"
                            ELSE IF ~m.saw[e.t] THEN "reuse" ELSE ""
      [] e.k = "made"    -> IF m.ph[e.t] = "new" /\ m.item[e.i] \in {"none", "gone"} THEN "" ELSE "use"
      [] e.k = "failed"  -> IF m.ph[e.t] = "new" THEN "" ELSE "use"
      [] e.k = "got"     -> IF m.ph[e.t] = "made" THEN (IF m.hand[e.t] = e.i THEN "" ELSE "share")
                            ELSE IF m.ph[e.t] = "in" /\ m.item[e.i] \in {"back", "idle"} THEN "" ELSE "share"
      [] e.k = "err"     -> IF m.ph[e.t] = "fail" /\ e.i = e.t THEN "" ELSE "report"
      [] e.k = "pend"    -> IF m.ph[e.t] \in {"in", "new"} THEN "" ELSE IF m.ph[e.t] = "fail" THEN "report" ELSE "share"
      [] e.k = "wake"    -> ""
      [] e.k = "drop"    -> IF m.ph[e.t] \in {"wait", "mk", "out"} THEN "" ELSE "use"
      [] e.k = "dropped" -> IF m.ph[e.t] = "dropping" THEN "" ELSE "use"
      [] e.k \in {"put", "putbad"} -> IF m.item[e.i] = "own" /\ m.owner[e.i] = e.t THEN "" ELSE "use"
      [] e.k = "putend"  -> ""
      [] e.k = "gone"    -> IF m.item[e.i] = "bad" THEN "" ELSE "lost"
      [] e.k = "quiet"   -> IF Sleeping(m) # {} /\ (Idle(m) # {} \/ Used(m) < m.lim) THEN (IF m.lost THEN "slot" ELSE "wake") ELSE ""
      [] e.k = "hang"    -> "hang"
      [] OTHER           -> "unknown event"

Ok(m, e) == Wrong(m, e) = ""

Effect(m, e) ==
    CASE e.k = "poll"    -> [m EXCEPT !.ph[e.t] = IF @ = "mk" THEN "new" ELSE "in", !.awake[e.t] = FALSE, !.saw[e.t] = FALSE]
      [] e.k = "create"  -> [m EXCEPT !.ph[e.t] = "new"]
      [] e.k = "made"    -> [m EXCEPT !.ph[e.t] = "made", !.hand[e.t] = e.i, !.item[e.i] = "own", !.owner[e.i] = e.t]
      [] e.k = "failed"  -> [m EXCEPT !.ph[e.t] = "fail", !.lost = TRUE]
      [] e.k = "got"     -> [m EXCEPT !.ph[e.t] = "out", !.hand[e.t] = 0, !.item[e.i] = "own", !.owner[e.i] = e.t]
      [] e.k = "err"     -> [m EXCEPT !.ph[e.t] = "out"]
      [] e.k = "pend"    -> [m EXCEPT !.ph[e.t] = IF @ = "new" THEN "mk" ELSE "wait"]
      [] e.k = "wake"    -> [m EXCEPT !.awake[e.t] = TRUE]
      [] e.k = "drop"    -> [m EXCEPT !.ph[e.t] = "dropping", !.lost = @ \/ m.ph[e.t] = "mk"]
      [] e.k = "dropped" -> [m EXCEPT !.ph[e.t] = "out"]
      [] e.k = "put"     -> [m EXCEPT !.item[e.i] = "back"]
      [] e.k = "putbad"  -> [m EXCEPT !.item[e.i] = "bad", !.lost = TRUE]
      [] e.k = "putend"  -> IF m.item[e.i] = "back" /\ m.owner[e.i] = e.t THEN [m EXCEPT !.item[e.i] = "idle"] ELSE m
      [] e.k = "gone"    -> [m EXCEPT !.item[e.i] = "gone"]
      [] OTHER           -> m

After(m, e) == Look(Effect(m, e))

-----------------------------------------------------------------------------
(* What the boundary guarantees, stated on the state (checked on every behaviour of Ok/After, on
   the implementation model, and so on every recorded trace).                                    *)
Limit(m) == Used(m) <= m.lim
Exclusive(m) == \A i \in Item : m.item[i] = "own" => m.owner[i] \in Task
HandsOwn(m) == \A t \in Task : m.ph[t] = "made" => m.hand[t] \in Item /\ m.item[m.hand[t]] = "own" /\ m.owner[m.hand[t]] = t
NoTwoHands(m) == \A t, u \in Task : (t # u /\ m.ph[t] = "made" /\ m.ph[u] = "made") => m.hand[t] # m.hand[u]
=============================================================================
