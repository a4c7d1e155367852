------------------------------- MODULE BufGen -------------------------------
(* Programs for the users of the buffer pool: "tN" takes a buffer and fills it with N bytes, "wN" adds
   N bytes to it, "r" gives the oldest one back; the last task looks at what is left in the pool. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NTasks, Limits, Caps, Inits, Pre
Progs == <<<<"t5", "r">>, <<"t40", "r">>, <<"t0", "r", "t100", "r">>, <<"t20", "w500", "r", "t1", "r">>, <<"t16", "t17", "r", "r">>,
           <<"t5", "t40", "t3", "r", "r", "r">>, <<"t15", "w1", "r">>, <<"t9", "w9", "r", "t0", "w300", "r">>>>
Last == <<"l", "t0", "t0", "t0", "t0", "r", "r", "r", "r">>
VARIABLE sc
Init == \E n \in Limits, k \in NTasks, c \in Caps, i \in Inits : \E f \in [1 .. k -> 1 .. Len(Progs)] :
           /\ \A a \in 1 .. k - 1 : f[a] <= f[a + 1]
           /\ sc = [n |-> n, cap |-> c, init |-> i, progs |-> [a \in 1 .. k |-> Progs[f[a]]] \o <<Last>>]
Next == FALSE /\ UNCHANGED sc
Spec == Init /\ [][Next]_sc
RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN "" ELSE Join(f, n - 1) \o (IF n > 1 THEN "," ELSE "") \o f[n]
Str(s) == "\"" \o s \o "\""
Arr(s) == "[" \o Join([k \in 1 .. Len(s) |-> Str(s[k])], Len(s)) \o "]"
Emit == PrintT("@@{" \o Str("kind") \o ":" \o Str("buf") \o "," \o Str("n") \o ":" \o ToString(sc.n) \o "," \o Str("cap") \o ":" \o ToString(sc.cap) \o ","
               \o Str("init") \o ":" \o ToString(sc.init) \o "," \o Str("pre") \o ":" \o ToString(Pre) \o ","
               \o Str("progs") \o ":[" \o Join([k \in 1 .. Len(sc.progs) |-> Arr(sc.progs[k])], Len(sc.progs)) \o "]}")
=============================================================================
