------------------------------ MODULE PoolGen ------------------------------
(* What users of a pool do: programs of up to four tasks.  An operation is "g" and letters (s: the
   creation, if this getter has to create, isn't done at once; f: it fails; x: it panics; X: it panics at once; cK: the getter is
   abandoned at its K-th Pending; p: polled again without having been woken, with another waker),
   "r" (give the oldest item back), "b" (give it back broken), "q" (wait until nobody can go on), or
   "l" (the same, after everybody else).  A last task takes the whole capacity in the end.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Fam, NTasks, Limits, Pre

Gets == CASE Fam = "plain"  -> <<"g", "gs", "gp">>
          [] Fam = "wait"   -> <<"g", "gs", "gp", "gc1", "gc2">>
          [] Fam = "fail"   -> <<"g", "gf", "gsf", "gsc1", "gsfc2", "gc1", "gfc1">>
          [] Fam = "panic"  -> <<"g", "gx", "gX", "gsx", "gsf", "gs", "gc1">>
          [] OTHER          -> <<"g", "gs", "gp", "gc1", "gc2", "gf", "gsf", "gsc1", "gfc1">>
Ends == CASE Fam \in {"plain", "wait"} -> <<"r", "q">>
          [] OTHER           -> <<"r", "b">>
\* one task: a get and what becomes of the item
One == [k \in 1 .. Len(Gets) * Len(Ends) |->
          LET e == Ends[1 + ((k - 1) \div Len(Gets))] g == Gets[1 + ((k - 1) % Len(Gets))] IN
          IF e = "q" THEN <<g, "q", "r">> ELSE <<g, e>>]
\* two gets in a row
Pairs == <<<<"g", "r", "g", "r">>, <<"g", "b", "g", "r">>, <<"gf", "r", "g", "r">>, <<"gsc1", "r", "g", "r">>, <<"gc1", "r", "g", "r">>,
           <<"g", "g", "r", "r">>, <<"g", "r", "gc1", "r">>, <<"gs", "b", "gf", "r">>>>
\* the whole capacity at once, several times over
Times(x, n) == [k \in 1 .. n |-> x]
Many(n) == <<Times("g", n) \o Times("r", n) \o Times("g", n) \o Times("r", n),
             Times("g", n) \o Times("b", n) \o Times("g", n) \o Times("r", n),
             Times("g", n) \o <<"b">> \o Times("r", n - 1) \o Times("g", n) \o <<"b">>,
             Times("gf", n) \o Times("g", n) \o Times("r", n),
             Times("gsc1", n) \o Times("gs", n) \o Times("r", n) \o Times("g", n),
             Times("g", n) \o <<"gc1">> \o Times("r", n) \o Times("gp", n),
             Times("gx", n) \o Times("gsX", n) \o Times("g", n) \o Times("r", n),
             Times("g", n - 1) \o <<"r", "g", "r", "g", "g">> \o Times("r", n)>>
\* the same very often
Often(n, k) == <<Times("g", 1) \o [j \in 1 .. 2 * k |-> IF j % 2 = 1 THEN "r" ELSE "g"],
                 Times("g", 1) \o [j \in 1 .. 2 * k |-> IF j % 2 = 1 THEN "b" ELSE "g"],
                 Times("gf", k), Times("gsc1", k), Times("gsf", k), Times("gX", k), Times("g", n) \o Times("gc1", k) \o Times("r", n),
                 [j \in 1 .. 3 * k |-> <<"g", "r", "gp">>[1 + ((j - 1) % 3)]]>>
\* very many have given up waiting when another one begins to
Crowd(k) == <<<<"g">> \o Times("gc1", k) \o <<"l", "r">>, <<"q", "g", "r">>, <<"q", "gc1", "g", "b">>>>
Whole(n) == IF Fam = "often" THEN Often(n, 300) ELSE Many(n)
Progs == IF Fam = "crowd" THEN Crowd(100) ELSE IF Fam = "two" THEN Pairs \o <<<<"g", "r">>, <<"gs", "b">>, <<"gc1", "r">>, <<"gf", "r">>>> ELSE One

Last(n) == [k \in 1 .. 2 * n + 1 |-> IF k = 1 THEN "l" ELSE IF k <= n + 1 THEN "g" ELSE "r"]

VARIABLE sc
\* tasks are interchangeable: their programs in ascending order
Init == \E n \in Limits, k \in NTasks :
          \E f \in [1 .. k -> 1 .. Len(IF Fam \in {"many", "often"} THEN Whole(n) ELSE Progs)] :
             /\ \A a \in 1 .. k - 1 : f[a] <= f[a + 1]
             /\ ~(Fam \notin {"many", "often"} /\ \E a \in 1 .. k, b \in 1 .. k : a # b /\ n * 2 > k + 3)
             /\ sc = [n |-> n, pre |-> Pre, progs |-> [a \in 1 .. k |-> (IF Fam \in {"many", "often"} THEN Whole(n) ELSE Progs)[f[a]]] \o <<Last(n)>>]
Next == FALSE /\ UNCHANGED sc
Spec == Init /\ [][Next]_sc
Q == "\""
RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN "" ELSE Join(f, n - 1) \o (IF n > 1 THEN "," ELSE "") \o f[n]
Str(s) == Q \o s \o Q
Arr(s) == "[" \o Join([k \in 1 .. Len(s) |-> Str(s[k])], Len(s)) \o "]"
Emit == PrintT("@@{" \o Str("n") \o ":" \o ToString(sc.n) \o "," \o Str("pre") \o ":" \o ToString(sc.pre) \o ","
               \o Str("progs") \o ":[" \o Join([k \in 1 .. Len(sc.progs) |-> Arr(sc.progs[k])], Len(sc.progs)) \o "]}")
=============================================================================
