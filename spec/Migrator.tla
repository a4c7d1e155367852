------------------------------ MODULE Migrator ------------------------------
(* Migrating a database: the list of migrations the program knows, the records in the table `migrations`, and calls that
   run steps.  A step is an `up` or `down` of a migration, followed by the update of its record.  Anything may fail: taking
   a connection, the migration, the record update (before or after the server made it), or the process (cancel).

   rec:  what the server has recorded        done: the migrations whose last step that completed was `up`
   mem:  what the migrator believes to be recorded (NoMig: there is none)                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Lists, MaxCalls, MaxFaults, RecFaults, StepFaults, NewFaults, Starts, Pools, Later
VARIABLES ls, start, rec, tbl, other, done, alive, mem, pc, call, step, hist, evs, faults, pool

vars == <<ls, start, rec, tbl, other, done, alive, mem, pc, call, step, hist, evs, faults, pool>>

V(a, b, c, ms) == [v |-> <<a, b, c>>, ms |-> ms]
(* names stand for texts; q1.. are the awkward ones *)
List(n) ==
  CASE n = "main"  -> <<V(0, 2, 0, <<"a", "b">>), V(0, 10, 0, <<"c">>), V(1, 0, 0, <<>>), V(1, 0, 1, <<"a", "d">>)>>
    [] n = "macro" -> <<V(0, 1, 0, <<"M1", "M2">>), V(0, 1, 1, <<"M3">>), V(2, 0, 0, <<"M4">>)>>
    [] n = "names" -> <<V(0, 0, 0, <<"q1", "q2">>), V(0, 0, 1, <<"q3", "q4", "q5">>), V(9, 0, 0, <<"q6", "q7", "q8">>)>>
    [] n = "far"   -> <<V(0, 65535, 65535, <<"a">>), V(1, 0, 255, <<"e">>), V(1, 0, 300, <<"f">>), V(1, 0, 65535, <<"b">>), V(256, 0, 0, <<"c">>), V(65535, 65535, 65535, <<"d">>)>>
    [] n = "one"   -> <<V(1, 2, 3, <<"a">>)>>
    [] n = "empty" -> <<>>
    [] n = "none"  -> <<V(1, 0, 0, <<>>), V(1, 1, 0, <<>>)>>
    [] n = "long"  -> <<V(0, 0, 1, <<"a">>), V(0, 0, 2, <<"b", "c", "d", "e">>), V(0, 1, 0, <<"f", "g">>), V(1, 0, 0, <<"h", "a">>), V(1, 0, 9, <<"b">>), V(1, 0, 10, <<"i">>)>>
    \* very many versions, and very many migrations of one version
    [] n = "wide"  -> [i \in 1..261 |-> IF i = 101 THEN V(0, 100, 1, [j \in 1..260 |-> "m" \o ToString(j)]) ELSE V(0, IF i <= 100 THEN i ELSE i - 1, 0, <<"a">>)]
Known == TLCEval([n \in Lists |-> List(n)])
AllMigr == TLCEval([n \in Lists |-> TLCEval(UNION {{<<i, j>> : j \in 1..Len(Known[n][i].ms)} : i \in 1..Len(Known[n])})])
L == Known[ls]
Migr == AllMigr[ls]
Ver(m) == L[m[1]].v

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Leq(a, b) == a = b \/ Less(a, b)
Before(m, n) == m[1] < n[1] \/ (m[1] = n[1] /\ m[2] < n[2])
FirstM(S) == LET i == Min({m[1] : m \in S}) IN <<i, Min({m[2] : m \in {n \in S : n[1] = i}})>>
LastM(S) == LET i == Max({m[1] : m \in S}) IN <<i, Max({m[2] : m \in {n \in S : n[1] = i}})>>
Sorted(S) == SetToSortSeq(S, Before)

\* the versions of the list and some around them
Targets == IF ls = "wide" THEN {<<0, 100, 0>>, <<0, 100, 1>>, <<0, 0, 0>>} ELSE {L[i].v : i \in 1..Len(L)} \cup {<<0, 0, 0>>, <<0, 9, 65535>>, <<65535, 65535, 65534>>}
NoTarget == <<>>
Within(t) == {m \in Migr : t = NoTarget \/ Leq(Ver(m), t)}
Beyond(t) == Migr \ Within(t)

NoCall == [op |-> "", t |-> <<>>, rec0 |-> {}, ok |-> FALSE]
NoStep == [m |-> <<0, 0>>, dir |-> ""]
NoMem == {}

Init ==
  /\ ls \in Lists /\ pool \in Pools
  /\ rec \in (CASE Starts = "all" -> SUBSET Migr
                [] Starts = "some" -> {{}, Migr, Within(<<0, 10, 0>>), {m \in Migr : m[2] = 1}, {m \in Migr : m[1] % 2 = 0}}
                [] Starts = "wide" -> {{}, Migr, {m \in Migr : m[1] < 101 \/ (m[1] = 101 /\ m[2] % 2 = 0)}}
                [] Starts = "none" -> {{}})
  /\ tbl \in (IF rec = {} THEN BOOLEAN ELSE {TRUE})
  /\ other \in (IF rec = {} /\ Starts = "all" THEN BOOLEAN ELSE {FALSE})
  /\ done = rec /\ start = [rec |-> Sorted(rec), tbl |-> tbl, other |-> other]
  /\ alive = FALSE /\ mem = NoMem /\ pc = "idle" /\ call = NoCall /\ step = NoStep /\ hist = <<>> /\ evs = <<>> /\ faults = 0

MayFail == faults < MaxFaults
Ev(e, m, o) == [e |-> e, m |-> m, o |-> o]
\* the call ends
End(c, evts, r, rc) == hist' = Append(hist, [op |-> c.op, t |-> c.t, ev |-> evts, ret |-> r, rec |-> Sorted(rc)])

\* with Later > 0, histories are about failures
More == Len(hist) < MaxCalls /\ (Later > 0 => (faults > 0 \/ Len(hist) < Later))

(* A migrator is created: is there the table? create it, read it. *)
New ==
  /\ pc = "idle" /\ More /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].op # "new" \/ ~alive)
  /\ LET c == [NoCall EXCEPT !.op = "new", !.rec0 = rec]
         made == IF tbl THEN <<>> ELSE <<Ev("create", <<0, 0>>, "ok")>>
     IN \/ /\ alive' = TRUE /\ mem' = rec /\ tbl' = TRUE
           /\ End(c, made, "ok", rec) /\ call' = [c EXCEPT !.ok = TRUE] /\ UNCHANGED faults
        \/ /\ MayFail /\ faults' = faults + 1
           /\ alive' = FALSE /\ mem' = NoMem /\ call' = c
           /\ \E f \in NewFaults :
                LET evf == CASE f = "noget" -> <<Ev("look", <<0, 0>>, "noget")>>
                             [] f = "lookerr" -> <<Ev("look", <<0, 0>>, "err")>>
                             [] f = "looklost" -> <<Ev("look", <<0, 0>>, "lostb")>>
                             [] f = "createerr" -> <<Ev("create", <<0, 0>>, "err")>>
                             [] f = "createlosta" -> <<Ev("create", <<0, 0>>, "losta")>>
                             [] f = "readerr" -> made \o <<Ev("read", <<0, 0>>, "err")>>
                             [] f = "readlost" -> made \o <<Ev("read", <<0, 0>>, "lostb")>>
                             [] f = "readcan" -> made \o <<Ev("read", <<0, 0>>, "canb")>>
                IN /\ f \in {"createerr", "createlosta"} => ~tbl
                   /\ tbl' = (tbl \/ f \in {"createlosta", "readerr", "readlost", "readcan"})
                   /\ End(c, evf, IF f = "readcan" THEN "cancelled" ELSE "err", rec)
  /\ UNCHANGED <<ls, start, rec, other, done, pc, step, evs, pool>>

Ops == {<<"up", NoTarget>>, <<"down1", NoTarget>>} \cup ({"to", "upto", "down"} \X Targets)
\* calls after a failure: some
LaterOps == {<<"up", NoTarget>>, <<"down1", NoTarget>>, <<"down", <<0, 0, 0>>>>, <<"to", <<0, 9, 65535>>>>}

Begin ==
  /\ pc = "idle" /\ alive /\ More
  /\ \E o \in (IF Later > 0 /\ Len(hist) >= 2 THEN LaterOps ELSE Ops) :
       call' = [op |-> o[1], t |-> o[2], rec0 |-> rec, ok |-> FALSE]
  /\ pc' = "pick" /\ evs' = <<>>
  /\ UNCHANGED <<ls, start, rec, tbl, other, done, alive, mem, step, hist, faults, pool>>

UpSet == IF call.op \in {"up", "upto", "to"} THEN Within(call.t) \ mem ELSE {}
DownSet == IF call.op \in {"down", "to"} THEN Beyond(call.t) \cap mem
           ELSE IF call.op = "down1" /\ evs = <<>> THEN mem ELSE {}

Pick ==
  /\ pc = "pick"
  /\ IF UpSet # {} THEN step' = [m |-> FirstM(UpSet), dir |-> "up"] /\ pc' = "step" /\ UNCHANGED <<hist, call>>
     ELSE IF DownSet # {} THEN step' = [m |-> LastM(DownSet), dir |-> "down"] /\ pc' = "step" /\ UNCHANGED <<hist, call>>
     ELSE /\ pc' = "idle" /\ step' = NoStep /\ call' = [call EXCEPT !.ok = TRUE]
          /\ End(call, evs, IF call.op = "down1" THEN (IF evs = <<>> THEN "false" ELSE "true") ELSE "ok", rec)
  /\ UNCHANGED <<ls, start, rec, tbl, other, done, alive, mem, evs, faults, pool>>

Step ==
  /\ pc = "step"
  /\ \/ /\ pc' = "rec" /\ evs' = Append(evs, Ev(step.dir, step.m, "ok"))
        /\ done' = IF step.dir = "up" THEN done \cup {step.m} ELSE done \ {step.m}
        /\ UNCHANGED <<alive, mem, hist, faults, step>>
     \/ /\ MayFail /\ faults' = faults + 1
        /\ \E o \in StepFaults :
             /\ End(call, Append(evs, Ev(step.dir, step.m, o)), IF o = "can" THEN "cancelled" ELSE "err", rec)
             /\ alive' = (o # "can") /\ mem' = (IF o = "can" THEN NoMem ELSE mem)
        /\ pc' = "idle" /\ step' = NoStep /\ UNCHANGED <<done, evs>>
  /\ UNCHANGED <<ls, start, rec, tbl, other, call, pool>>

RecName == IF step.dir = "up" THEN "ins" ELSE "del"
With(S) == IF step.dir = "up" THEN S \cup {step.m} ELSE S \ {step.m}
Record ==
  /\ pc = "rec"
  /\ \/ /\ pc' = "pick" /\ evs' = Append(evs, Ev(RecName, step.m, "ok")) /\ step' = NoStep
        /\ rec' = With(rec) /\ mem' = With(mem)
        /\ UNCHANGED <<alive, hist, faults>>
     \/ /\ MayFail /\ faults' = faults + 1
        /\ \E o \in RecFaults :
             LET made == o \in {"losta", "tmoa", "cana"}
                 gone == made \/ o = "canb"
             IN /\ rec' = (IF made THEN With(rec) ELSE rec)
                \* who does not know what happened to a record makes a new migrator
                /\ alive' = ~gone /\ mem' = (IF gone THEN NoMem ELSE mem)
                /\ End(call, Append(evs, Ev(RecName, step.m, o)), IF o \in {"cana", "canb"} THEN "cancelled" ELSE "err", rec')
        /\ pc' = "idle" /\ step' = NoStep /\ UNCHANGED evs
  /\ UNCHANGED <<ls, start, tbl, other, done, call, pool>>

Next == New \/ Begin \/ Pick \/ Step \/ Record
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
TypeOK == rec \subseteq Migr /\ done \subseteq Migr /\ pc \in {"idle", "pick", "step", "rec"}
\* the migrator knows the records
Knows == alive => mem = rec
\* C17: a call that succeeds leaves exactly what it is for
Reached ==
  (pc = "idle" /\ call.ok) =>
    CASE call.op \in {"up", "upto"} -> rec = call.rec0 \cup Within(call.t)
      [] call.op = "down" -> rec = call.rec0 \ Beyond(call.t)
      [] call.op = "to" -> rec = Within(call.t)
      [] call.op = "down1" -> rec = (IF call.rec0 = {} THEN {} ELSE call.rec0 \ {LastM(call.rec0)})
      [] OTHER -> rec = call.rec0
\* C17: what is recorded is not run up, what is not is not run down
NotAgain == pc = "step" => IF step.dir = "up" THEN step.m \notin rec ELSE step.m \in rec
\* C17: in order, each once
RECURSIVE InOrder(_, _, _)
InOrder(es, dir, last) ==
  IF es = <<>> THEN TRUE
  ELSE IF es[1].e # dir THEN InOrder(SubSeq(es, 2, Len(es)), dir, last)
  ELSE (last = <<>> \/ (IF dir = "up" THEN Before(last, es[1].m) ELSE Before(es[1].m, last))) /\ InOrder(SubSeq(es, 2, Len(es)), dir, es[1].m)
Ordered == pc # "idle" => InOrder(evs, "up", <<>>) /\ InOrder(evs, "down", <<>>)
\* C18: records and completed steps differ by no more than the steps that were in flight
Diff == (rec \ done) \cup (done \ rec)
InFlight == Cardinality(Diff) <= faults + (IF pc = "rec" THEN 1 ELSE 0)
\* C18: no record before its step
AsDone == (faults = 0 /\ pc # "rec") => rec = done

(******************************** emission ********************************)
Finished == pc = "idle" /\ hist # <<>> /\ ~More
Emit == Finished => PrintT("@@" \o ToJson([list |-> L, kind |-> (IF ls = "macro" THEN "macro" ELSE "dyn"), start |-> start, pool |-> pool, calls |-> hist]))
=============================================================================
