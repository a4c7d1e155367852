------------------------------ MODULE PoolImpl ------------------------------
(* The pool as the code implements it, at the level of its atomic operations on the shared state
   (the counter, the queue of items, the queue of wakers), with any number of users that get, use,
   return, break and abandon.  Every step that is visible at the boundary is checked against Pool;
   with fairness, nobody who waits is forgotten.                                                  *)
EXTENDS Pool, TLC, TLCExt

CONSTANTS N,          \* the limit of the pool
          Rounds,     \* how often a task gets an item (0: for ever)
          MayFail, MayCancel, MayBreak,   \* what users do
          Record      \* keep the schedule, for replaying it

VARIABLES items, queue, wakers, pc, w, added, left, back, held, m, bad, hist

vars == <<items, queue, wakers, pc, w, added, left, back, held, m, bad, hist>>

\* e happens at the boundary
Ev(e) == /\ m' = After(m, e)
         /\ bad' = IF bad = "" THEN Wrong(m, e) ELSE bad
E(k, t, i) == [k |-> k, t |-> t, i |-> i]
Quietly == UNCHANGED <<m, bad>>
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
\* the schedule and, for every task, what its user did
Note(t, x) == hist' = IF Record THEN <<Append(hist[1], t), [hist[2] EXCEPT ![t] = Append(@, x)]>> ELSE hist
Hist(t) == hist' = IF Record THEN <<Append(hist[1], t), hist[2]>> ELSE hist
NoStep(t, x) == hist' = IF Record THEN <<hist[1], [hist[2] EXCEPT ![t] = Append(@, x)]>> ELSE hist
Nothing == UNCHANGED hist

Init == /\ items = 0 /\ queue = <<>> /\ wakers = <<>>
        /\ pc = [t \in Task |-> "out"]
        /\ w = [t \in Task |-> 0]           \* local: the counter as loaded / wakers still to wake
        /\ added = [t \in Task |-> FALSE]
        /\ left = [t \in Task |-> Rounds]
        /\ back = [t \in Task |-> 0]        \* the item that is being returned
        /\ held = [t \in Task |-> 0]
        /\ m = Start(N) /\ bad = "" /\ hist = <<<<>>, [t \in Task |-> <<>>]>>

\* a user starts a getter
Get(t) == /\ pc[t] = "out" /\ held[t] = 0 /\ (Rounds = 0 \/ left[t] > 0)
          /\ left' = [left EXCEPT ![t] = IF Rounds = 0 THEN 0 ELSE @ - 1]
          /\ Goto(t, "pop") /\ added' = [added EXCEPT ![t] = FALSE]
          /\ Ev(E("poll", t, 0)) /\ (IF Record /\ Len(hist[2][t]) > 0 THEN NoStep(t, "g") ELSE Note(t, "g"))
          /\ UNCHANGED <<items, queue, wakers, w, back, held>>
\* a waiting getter is polled again (only if it was woken)
Again(t) == /\ pc[t] = "wait" /\ m.awake[t]
            /\ Goto(t, "pop") /\ added' = [added EXCEPT ![t] = FALSE]
            /\ Ev(E("poll", t, 0)) /\ Hist(t)
            /\ UNCHANGED <<items, queue, wakers, w, back, held, left>>
Pop(t) == /\ pc[t] = "pop" /\ Hist(t)
          /\ IF queue = <<>>
             THEN Goto(t, "load") /\ Quietly /\ UNCHANGED <<queue, held>>
             ELSE /\ queue' = Tail(queue) /\ held' = [held EXCEPT ![t] = Head(queue)]
                  /\ Goto(t, "ret") /\ Quietly
          /\ UNCHANGED <<items, wakers, w, added, left, back>>
Ret(t) == /\ pc[t] = "ret" /\ Goto(t, "use") /\ Ev(E("got", t, held[t])) /\ Nothing
          /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>
Load(t) == /\ pc[t] = "load" /\ Hist(t) /\ Quietly
           /\ w' = [w EXCEPT ![t] = items]
           /\ Goto(t, IF items < N THEN "cas" ELSE IF added[t] THEN "pend" ELSE "push")
           /\ UNCHANGED <<items, queue, wakers, added, left, back, held>>
Cas(t) == /\ pc[t] = "cas" /\ Hist(t)
          /\ IF items = w[t] THEN /\ items' = items + 1 /\ Goto(t, "new")
                             ELSE Goto(t, "pop") /\ UNCHANGED items
          /\ Quietly
          /\ UNCHANGED <<queue, wakers, w, added, left, back, held>>
Push(t) == /\ pc[t] = "push" /\ Hist(t) /\ Quietly
           /\ wakers' = Append(wakers, t) /\ added' = [added EXCEPT ![t] = TRUE]
           /\ Goto(t, "pop")
           /\ UNCHANGED <<items, queue, w, left, back, held>>
Pend(t) == /\ pc[t] = "pend" /\ NoStep(t, "w") /\ Goto(t, "wait") /\ Ev(E("pend", t, 0))
           /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>
New(t) == /\ pc[t] = "new" /\ Nothing /\ Goto(t, "make") /\ Ev(E("create", t, 0))
          /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>
\* the creation: takes a poll that is not ready, succeeds or fails
MakeSlow(t) == /\ pc[t] = "make" /\ MayCancel /\ Note(t, "s") /\ Goto(t, "making") /\ Ev(E("pend", t, 0))
               /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>
MakeAgain(t) == /\ pc[t] = "making" /\ Hist(t) /\ Goto(t, "make2") /\ Ev(E("poll", t, 0))
                /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>
MakeOk(t) == /\ pc[t] \in {"make", "make2"} /\ Hist(t)
             /\ LET i == CHOOSE i \in Item : m.item[i] \in {"none", "gone"} IN
                /\ held' = [held EXCEPT ![t] = i]
                /\ Ev(E("made", t, i)) /\ Goto(t, "ret")
             /\ UNCHANGED <<items, queue, wakers, w, added, left, back>>
MakeFail(t) == /\ pc[t] \in {"make", "make2"} /\ MayFail /\ Note(t, "f")
               /\ Ev(E("failed", t, 0)) /\ Goto(t, "rel-err")
               /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>
\* release_slot: the counter, then everybody is woken
Release(t) == /\ pc[t] \in {"rel-err", "rel-drop", "rel-put"} /\ Hist(t) /\ Quietly
              /\ items' = items - 1
              /\ Goto(t, CASE pc[t] = "rel-err" -> "len-err" [] pc[t] = "rel-drop" -> "len-drop" [] OTHER -> "len-put")
              /\ UNCHANGED <<queue, wakers, w, added, left, back, held>>
Len1(t) == /\ pc[t] \in {"len-err", "len-drop", "len-put"} /\ Hist(t) /\ Quietly
           /\ w' = [w EXCEPT ![t] = Len(wakers)]
           /\ Goto(t, CASE pc[t] = "len-err" -> "wake-err" [] pc[t] = "len-drop" -> "wake-drop" [] OTHER -> "wake-put")
           /\ UNCHANGED <<items, queue, wakers, added, left, back, held>>
\* takes a waker
WakePop(t) == /\ pc[t] \in {"wake-err", "wake-drop", "wake-put"} /\ w[t] > 0 /\ Hist(t) /\ Quietly
              /\ IF wakers = <<>>
                 THEN w' = [w EXCEPT ![t] = @ - 1] /\ UNCHANGED <<wakers, pc, held>>
                 ELSE /\ wakers' = Tail(wakers) /\ held' = [held EXCEPT ![t] = Head(wakers)]
                      /\ Goto(t, CASE pc[t] = "wake-err" -> "use-err" [] pc[t] = "wake-drop" -> "use-drop" [] OTHER -> "use-put")
                      /\ UNCHANGED w
              /\ UNCHANGED <<items, queue, added, left, back>>
WakeUse(t) == /\ pc[t] \in {"use-err", "use-drop", "use-put"} /\ Hist(t)
              /\ Ev(E("wake", held[t], 0))
              /\ w' = [w EXCEPT ![t] = @ - 1] /\ held' = [held EXCEPT ![t] = 0]
              /\ Goto(t, CASE pc[t] = "use-err" -> "wake-err" [] pc[t] = "use-drop" -> "wake-drop" [] OTHER -> "wake-put")
              /\ UNCHANGED <<items, queue, wakers, added, left, back>>
WakeEnd(t) == /\ pc[t] \in {"wake-err", "wake-drop", "wake-put"} /\ w[t] = 0 /\ Nothing
              /\ Ev(CASE pc[t] = "wake-err" -> E("err", t, t) [] pc[t] = "wake-drop" -> E("dropped", t, 0) [] OTHER -> E("putend", t, back[t]))
              /\ Goto(t, "out") /\ back' = [back EXCEPT ![t] = 0]
              /\ UNCHANGED <<items, queue, wakers, w, left, added, held>>
\* the user gives the item back
Put(t) == /\ pc[t] = "use" /\ NoStep(t, "r")
          /\ Ev(E("put", t, held[t])) /\ back' = [back EXCEPT ![t] = held[t]] /\ Goto(t, "qpush")
          /\ UNCHANGED <<items, queue, wakers, w, left, added, held>>
QPush(t) == /\ pc[t] = "qpush" /\ Hist(t) /\ Quietly
            /\ queue' = Append(queue, held[t]) /\ held' = [held EXCEPT ![t] = 0] /\ Goto(t, "len-put")
            /\ UNCHANGED <<items, wakers, w, added, left, back>>
PutBad(t) == /\ pc[t] = "use" /\ MayBreak /\ NoStep(t, "b")
             /\ Ev(E("putbad", t, held[t])) /\ back' = [back EXCEPT ![t] = held[t]] /\ Goto(t, "destroy")
             /\ UNCHANGED <<items, queue, wakers, w, left, added, held>>
Destroy(t) == /\ pc[t] = "destroy" /\ Hist(t)
              /\ Ev(E("gone", t, held[t])) /\ held' = [held EXCEPT ![t] = 0] /\ Goto(t, "rel-put")
              /\ UNCHANGED <<items, queue, wakers, w, added, left, back>>
\* the user abandons its getter, while it waits or while its item is created
Cancel(t) == /\ pc[t] \in {"wait", "making"} /\ MayCancel /\ NoStep(t, "c")
             /\ Ev(E("drop", t, 0))
             /\ Goto(t, IF pc[t] = "making" THEN "rel-drop" ELSE "gone")
             /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>
Cancelled(t) == /\ pc[t] = "gone" /\ Nothing /\ Ev(E("dropped", t, 0)) /\ Goto(t, "out")
                /\ UNCHANGED <<items, queue, wakers, w, added, left, back, held>>

Own(t) == \/ Pop(t) \/ Ret(t) \/ Load(t) \/ Cas(t) \/ Push(t) \/ Pend(t) \/ New(t)
          \/ MakeAgain(t) \/ MakeOk(t) \/ MakeFail(t) \/ Release(t) \/ Len1(t) \/ WakePop(t) \/ WakeUse(t)
          \/ WakeEnd(t) \/ Put(t) \/ QPush(t) \/ Destroy(t) \/ Cancelled(t) \/ Again(t)
Step(t) == Own(t) \/ Get(t) \/ MakeSlow(t) \/ PutBad(t) \/ Cancel(t)
Next == \E t \in Task : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Task : WF_vars(Own(t))

\* nobody can go on without being woken
Still == \A t \in Task : (pc[t] = "wait" /\ ~m.awake[t]) \/ pc[t] = "out" \/ pc[t] = "use"

Accepted == bad = ""
QuietOk == Still => Ok(m, E("quiet", 0, 0))
CountOk == items <= N /\ Used(m) <= items
Bounds == Limit(m) /\ Exclusive(m) /\ HandsOwn(m) /\ NoTwoHands(m)
\* who waits gets served (or abandons): the holders give back for ever
Served == \A t \in Task : (pc[t] = "wait") ~> (pc[t] # "wait")

Done == \A t \in Task : (pc[t] = "out" /\ left[t] = 0) \/ (pc[t] = "wait" /\ ~m.awake[t])
RECURSIVE Join(_, _)
Join(f, n) == IF n = 0 THEN "" ELSE Join(f, n - 1) \o (IF n > 1 THEN "," ELSE "") \o f[n]
Words(s) == Join([k \in 1 .. Len(s) |-> "\"" \o s[k] \o "\""], Len(s))
Emit == (Record /\ Done) => PrintT("@@{\"n\":" \o ToString(N) \o ",\"steps\":[" \o Join([k \in 1 .. Len(hist[1]) |-> ToString(hist[1][k])], Len(hist[1]))
                                    \o "],\"did\":[" \o Join([t \in 1 .. Cardinality(Task) |-> "[" \o Words(hist[2][t]) \o "]"], Cardinality(Task)) \o "]}")
=============================================================================
