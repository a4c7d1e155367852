------------------------------ MODULE Framing --------------------------------
(* Packets and frames.

   A packet of any size is cut into frames of at most FMax bytes; a frame shorter than FMax (possibly
   empty) ends the packet.  The first part is the protocol itself, as a sender and a receiver with a
   transport between them that may be tampered with; TLC checks it for small limits.  The second part
   are the behaviours with the real limit, for the replay on the real client.
   Byte strings are sequences of runs <<byte, count>> here. *)
EXTENDS Numbers, FiniteSets, Json

CONSTANTS FMax, Fam, Sizes

(********************************* runs *********************************)
R(bs) == [i \in 1..Len(bs) |-> <<bs[i], 1>>]
RLen(rs) == FoldLeft(LAMBDA a, x : a + x[2], 0, rs)
RTake(rs, m) == FoldLeft(LAMBDA a, x : IF a.left = 0 THEN a ELSE
                    LET k == IF x[2] < a.left THEN x[2] ELSE a.left IN [o |-> Append(a.o, <<x[1], k>>), left |-> a.left - k], [o |-> <<>>, left |-> m], rs).o
RDrop(rs, m) == FoldLeft(LAMBDA a, x : IF a.left >= x[2] THEN [o |-> a.o, left |-> a.left - x[2]]
                    ELSE [o |-> Append(a.o, <<x[1], x[2] - a.left>>), left |-> 0], [o |-> <<>>, left |-> m], rs).o
\* runs in normal form
RNorm(rs) == FoldLeft(LAMBDA a, x : IF x[2] = 0 THEN a ELSE IF a # <<>> /\ a[Len(a)][1] = x[1] THEN [a EXCEPT ![Len(a)][2] = @ + x[2]] ELSE Append(a, x), <<>>, rs)

(******************************** frames ********************************)
\* all frames of a packet: [s |-> number, b |-> contents]
RECURSIVE Frames(_, _)
Frames(p, seq) == IF RLen(p) < FMax THEN <<[s |-> seq % 256, b |-> p]>>
                  ELSE <<[s |-> seq % 256, b |-> RTake(p, FMax)]>> \o Frames(RDrop(p, FMax), seq + 1)
NFrames(size) == (size \div FMax) + 1

(******************* sender, transport and receiver *******************)
VARIABLES pkt, left, sent, wseq, wire, inbuf, rseq, st, case
net == <<pkt, left, sent, wseq, wire, inbuf, rseq, st>>
vars == <<net, case>>

\* the bytes of a small packet are numbered, so that every exchange shows
Numbered(k) == [i \in 1..k |-> <<i % 256, 1>>]
NetInit == /\ \E k \in 0..12, q \in {0, 254, 255} : pkt = Numbered(k) /\ wseq = q /\ rseq = q
           /\ left = pkt /\ sent = FALSE /\ wire = <<>> /\ inbuf = <<>> /\ st = "reading" /\ case = 0
Send == /\ ~sent
        /\ LET b == RTake(left, FMax) IN
             /\ wire' = Append(wire, [s |-> wseq, b |-> b, good |-> TRUE])
             /\ left' = RDrop(left, FMax)
             /\ sent' = (RLen(b) < FMax)
        /\ wseq' = (wseq + 1) % 256
        /\ UNCHANGED <<pkt, inbuf, rseq, st, case>>
\* at most one frame is given another number
Tamper == /\ wire # <<>> /\ \A i \in 1..Len(wire) : wire[i].good
          /\ \E i \in 1..Len(wire) : \E s \in {(wire[i].s + 1) % 256, (wire[i].s + 255) % 256} : wire' = [wire EXCEPT ![i].s = s, ![i].good = FALSE]
          /\ UNCHANGED <<pkt, left, sent, wseq, inbuf, rseq, st, case>>
Receive == /\ st = "reading" /\ wire # <<>>
           /\ IF Head(wire).s # rseq THEN st' = "oos" /\ UNCHANGED <<inbuf, rseq>>
              ELSE /\ inbuf' = inbuf \o Head(wire).b
                   /\ rseq' = (rseq + 1) % 256
                   /\ st' = IF RLen(Head(wire).b) < FMax THEN "done" ELSE "reading"
           /\ wire' = Tail(wire)
           /\ UNCHANGED <<pkt, left, sent, wseq, case>>
NetNext == Send \/ Tamper \/ Receive
NetSpec == NetInit /\ [][NetNext]_vars /\ WF_vars(Send) /\ WF_vars(Receive)
Delivered == st = "done" => inbuf = pkt /\ sent /\ wire = <<>>
Agree == st = "done" => rseq = wseq
NothingBad == st = "reading" => \A i \in 1..Len(inbuf) : inbuf[i] = pkt[i]
AsCut == sent /\ st = "done" => LET f == Frames(pkt, 0) IN Len(f) = NFrames(RLen(pkt)) /\ FlattenSeq([i \in 1..Len(f) |-> f[i].b]) = pkt
Ends == <>(st \in {"done", "oos"})

(***************************** behaviours *****************************)
\* bytes that change often enough for every shift to show
Chunk == 65521
Data(size, from) ==
  LET k == size \div Chunk IN
  RNorm([i \in 1..k |-> <<33 + ((i + from) % 90), Chunk>>] \o <<<<33 + (from % 7), size % Chunk>>>>)
RFrame(f) == R(U24(RLen(f.b)) \o <<f.s>>) \o f.b
Wire1(p, seq) == LET fs == Frames(p, seq) IN RNorm(FlattenSeq([i \in 1..Len(fs) |-> RFrame(fs[i])]))
W(p) == [k |-> "w", b |-> Wire1(p, 0)]
Rd(p, seq) == [k |-> "r", b |-> Wire1(p, seq)]
CallE(op, f) == [k |-> "call", op |-> op] @@ f
RetE(f) == [k |-> "ret"] @@ f
None == [none |-> 0]
OkP == R(OkBody(7, 0, 2, 0, <<>>))
After == <<CallE("exec", [sql |-> "z"]), W(R(<<3>> \o Str("z"))), Rd(R(OkBody(3, 0, 2, 0, <<>>)), 1), RetE([ok |-> [ar |-> 3]])>>
\* the same after a statement went out of scope
AfterStmt == <<After[1], W(R(<<25>> \o U32(9))), After[2], After[3], After[4]>>
OosThen == <<RetE([err |-> "oos", lax |-> TRUE]), CallE("exec", [sql |-> "z"]), RetE([err |-> "local", lax |-> TRUE])>>

LenR(size) == R(LenEnc(size))
CellR(size) == LenR(size) \o Data(size, 1)
\* size of a text cell such that the cell takes total bytes
CellSize(total) == IF total - 1 < 251 THEN total - 1 ELSE IF total - 3 < 65536 THEN total - 3 ELSE IF total - 4 < 16777216 THEN total - 4 ELSE total - 9
Def == R(DefBody(<<>>, Str("t"), Str("t"), Str("c"), Str("c"), 63, 1024, 252, 0, 0))
Cols(n) == [i \in 1..n |-> [n |-> "c", ty |-> 252]]
Open(n) == <<CallE("query", [sql |-> "q"]), W(R(<<3>> \o Str("q"))), Rd(R(LenEnc(n)), 1)>> \o [i \in 1..n |-> Rd(Def, 1 + i)] \o <<RetE([cols |-> Cols(n)])>>
Eof == R(EofBody(FALSE, 2, 0))
Prep(np) == <<CallE("prepare", [sql |-> "p"]), W(R(<<22>> \o Str("p"))), Rd(R(<<0>> \o U32(9) \o U16(0) \o U16(np) \o <<0, 0, 0>>), 1)>>
              \o [i \in 1..np |-> Rd(R(DefBody(<<>>, <<>>, <<>>, Str("?"), <<>>, 63, 0, 253, 128, 0)), 1 + i)] \o <<RetE([stmt |-> 0])>>

(* Parameters: "i" an Int, "n" NULL, else the size of a Bytes. *)
PBytes(ps) == {i \in 1..Len(ps) : ps[i].t = "b"}
PVal(p, i) == IF p.t = "i" THEN <<"Int", 77>> ELSE IF p.t = "n" THEN <<"Null">> ELSE <<"Bytes", Data(p.z, i)>>
RECURSIVE Bits(_, _)
Bits(S, k) == IF k = 0 THEN 0 ELSE 2 * Bits({x - 1 : x \in S \ {0}}, k - 1) + (IF 0 \in S THEN 1 ELSE 0)
PNull(ps) == [j \in 1..((Len(ps) + 7) \div 8) |-> Bits({i \in 0..7 : 8 * (j - 1) + i + 1 <= Len(ps) /\ ps[8 * (j - 1) + i + 1].t = "n"}, 8)]
PSize(p) == IF p.t = "i" THEN 4 ELSE IF p.t = "n" THEN 0 ELSE Len(LenEnc(p.z)) + p.z
PTotal(ps) == 10 + ((Len(ps) + 7) \div 8) + 1 + 2 * Len(ps) + FoldLeft(LAMBDA a, p : a + PSize(p), 0, ps)
Long(ps) == PTotal(ps) > FMax
PExec(ps) == R(<<23>> \o U32(9) \o <<0, 1, 0, 0, 0>> \o PNull(ps) \o <<1>>) \o R(FlattenSeq([i \in 1..Len(ps) |-> <<IF ps[i].t = "i" THEN 3 ELSE IF ps[i].t = "n" THEN 6 ELSE 253, 0>>]))
   \o FlattenSeq([i \in 1..Len(ps) |-> IF ps[i].t = "i" THEN R(U32(77)) ELSE IF ps[i].t = "n" \/ Long(ps) THEN <<>> ELSE LenR(ps[i].z) \o Data(ps[i].z, i)])
RECURSIVE Pieces(_, _)
Pieces(rs, m) == IF RLen(rs) <= m THEN <<rs>> ELSE <<RTake(rs, m)>> \o Pieces(RDrop(rs, m), m)
PLong(ps) == IF ~Long(ps) THEN <<>> ELSE
   FlattenSeq([i \in 1..Len(ps) |-> IF ps[i].t # "b" THEN <<>> ELSE
      LET pieces == IF ps[i].z = 0 THEN <<<<>>>> ELSE Pieces(Data(ps[i].z, i), FMax - 6)
      IN [j \in 1..Len(pieces) |-> W(R(<<24>> \o U32(9) \o U16(i - 1)) \o pieces[j])]])
B(z) == [t |-> "b", z |-> z]
I == [t |-> "i", z |-> 0]
N == [t |-> "n", z |-> 0]
\* around the switch to long data: one parameter, size such that the request has FMax + d bytes
ParamLists == <<<<B(FMax - 19)>>, <<B(FMax - 18)>>, <<B(FMax - 17)>>, <<B(FMax - 7)>>, <<B(FMax - 6)>>, <<B(FMax - 5)>>, <<B(FMax)>>, <<B(FMax + 1)>>, <<B(2 * (FMax - 6))>>, <<B(2 * (FMax - 6) + 1)>>,
                <<I, B(FMax - 24), N>>, <<I, B(FMax - 23), N>>, <<I, B(FMax), N, B(0), B(5)>>, <<B(8000000), B(8777190)>>, <<B(8000000), B(8777193)>>, <<B(8000000), B(9000000), I, N>>,
                <<N, B(FMax - 6), I, B(0), B(FMax - 5), N, I>>, <<B(0), B(0), B(FMax)>>,
                Cat([i \in 1..75 |-> <<I, N, B(1), I>>]) \o <<B(FMax), N, B(0), B(3)>>>>

\* positions with another frame number, in a result with one column and two rows
SeqEv(at, seq) ==
  LET s(i) == IF i = at THEN seq ELSE i
      call == <<CallE("query", [sql |-> "q"]), W(R(<<3>> \o Str("q")))>>
      row == R(LenStr(Str("x")))
      rrow == [row |-> <<<<"Bytes", "x">>>>]
  IN CASE at = 1 -> call \o <<Rd(R(<<1>>), s(1))>> \o OosThen
       [] at = 2 -> call \o <<Rd(R(<<1>>), 1), Rd(Def, s(2))>> \o OosThen
       [] at = 3 -> Open(1) \o <<CallE("next", None), Rd(row, s(3))>> \o OosThen
       [] at = 4 -> Open(1) \o <<CallE("next", None), Rd(row, 3), RetE(rrow), CallE("collect", None), Rd(Eof, s(4))>> \o OosThen
       [] at = 5 -> <<CallE("exec", [sql |-> "q"]), W(R(<<3>> \o Str("q"))), Rd(OkP, seq)>> \o OosThen
       [] at = 6 -> <<CallE("exec", [sql |-> "q"]), W(R(<<3>> \o Str("q"))), Rd(R(ErrBody(1064, Str("42000"), Str("m"))), seq)>> \o OosThen
       [] at = 7 -> <<CallE("prepare", [sql |-> "p"]), W(R(<<22>> \o Str("p"))), Rd(R(<<0>> \o U32(9) \o U16(0) \o U16(0) \o <<0, 0, 0>>), seq)>> \o OosThen
       [] at = 8 -> Prep(0) \o <<CallE("sexec", [params |-> <<>>]), W(R(<<23>> \o U32(9) \o <<0, 1, 0, 0, 0>>)), Rd(OkP, seq)>> \o OosThen
\* the number this position has
RightSeq(at) == IF at <= 4 THEN at ELSE 1

\* a row of several frames with one of them numbered otherwise
Tampered(p, seq, at, by) == LET fs == Frames(p, seq) IN
  [k |-> "r", b |-> RNorm(FlattenSeq([i \in 1..Len(fs) |-> RFrame(IF i = at THEN [fs[i] EXCEPT !.s = (@ + by) % 256] ELSE fs[i])]))]

\* frames, each after 990 ms
Slow(k, fs) == Cat([i \in 1..Len(fs) |-> <<Delay(990, "before"), [k |-> k, b |-> RNorm(RFrame(fs[i]))]>>])

\* an execution, and another statement in the place of this one
Stmt1 == <<CallE("sexec", [params |-> <<>>]), W(R(<<23>> \o U32(9) \o <<0, 1, 0, 0, 0>>)), Rd(OkP, 1), RetE([ok |-> [ar |-> 7]]),
           CallE("prepare", [sql |-> "p"]), W(R(<<25>> \o U32(9))), W(R(<<22>> \o Str("p"))), Rd(R(<<0>> \o U32(9) \o U16(0) \o U16(0) \o <<0, 0, 0>>), 1), RetE([stmt |-> 0])>>
Events(c) ==
  CASE c.f = "out" ->
         LET sql == Data(c.z - 1, 3) IN
         IF c.op = "prepare" THEN <<CallE("prepare", [sql |-> sql]), W(R(<<22>>) \o sql), Rd(R(<<0>> \o U32(9) \o U16(0) \o U16(0) \o <<0, 0, 0>>), NFrames(c.z)), RetE([stmt |-> 0]),
                                     CallE("sexec", [params |-> <<>>]), W(R(<<23>> \o U32(9) \o <<0, 1, 0, 0, 0>>)), Rd(OkP, 1), RetE([ok |-> [ar |-> 7]])>>
         ELSE <<CallE("exec", [sql |-> sql]), W(R(<<3>>) \o sql), Rd(OkP, NFrames(c.z)), RetE([ok |-> [ar |-> 7]])>> \o After
    [] c.f = "in" ->
         LET z == CellSize(c.z)  row == CellR(z)  n == NFrames(RLen(row)) IN
         Open(1) \o <<CallE("next", None), Rd(row, 3), RetE([row |-> <<<<"Bytes", Data(z, 1)>>>>]), CallE("next", None), Rd(R(LenStr(Str("y"))), 3 + n), RetE([row |-> <<<<"Bytes", "y">>>>]),
           CallE("next", None), Rd(Eof, 4 + n), RetE([row |-> "none"])>> \o After
    [] c.f = "in2" ->
         \* two cells, binary protocol
         LET z == c.z  row == R(<<0, 0>>) \o LenR(5) \o Data(5, 2) \o LenR(z) \o Data(z, 1)  n == NFrames(RLen(row)) IN
         Prep(0) \o <<CallE("squery", [params |-> <<>>]), W(R(<<23>> \o U32(9) \o <<0, 1, 0, 0, 0>>)), Rd(R(<<2>>), 1), Rd(Def, 2), Rd(Def, 3), RetE([cols |-> Cols(2)]),
           CallE("next", None), Rd(row, 4), RetE([row |-> <<<<"Bytes", Data(5, 2)>>, <<"Bytes", Data(z, 1)>>>>]), CallE("next", None), Rd(Eof, 4 + n), RetE([row |-> "none"])>> \o AfterStmt
    [] c.f = "drop" ->
         \* a large row nobody reads
         LET row == CellR(CellSize(c.z))  n == NFrames(RLen(row)) IN
         Open(1) \o <<CallE("exec", [sql |-> "z"]), Rd(row, 3), Rd(Eof, 3 + n), W(R(<<3>> \o Str("z"))), Rd(OkP, 1), RetE([ok |-> [ar |-> 7]])>>
    [] c.f = "param" ->
         LET ps == ParamLists[c.i] IN
         Prep(Len(ps)) \o <<CallE("sexec", [params |-> [i \in 1..Len(ps) |-> PVal(ps[i], i)]])>> \o PLong(ps) \o <<W(PExec(ps)), Rd(OkP, NFrames(RLen(PExec(ps)))), RetE([ok |-> [ar |-> 7]]),
            CallE("sexec", [params |-> [i \in 1..Len(ps) |-> <<"Null">>]]), W(PExec([i \in 1..Len(ps) |-> N])), Rd(OkP, 1), RetE([ok |-> [ar |-> 7]])>>
    [] c.f = "rows" ->
         Open(c.n) \o <<CallE("collect", None)>> \o [i \in 1..c.m |-> Rd(FlattenSeq([j \in 1..c.n |-> R(LenStr(Digits(i)))]), 1 + c.n + i)] \o <<Rd(Eof, 2 + c.n + c.m),
            RetE([rows |-> [i \in 1..c.m |-> [j \in 1..c.n |-> <<"Bytes", Digits(i)>>]]])>> \o After
    [] c.f = "many" ->
         \* very many rows or results, read or left to the next command
         LET Row(i) == R(LenStr(Digits(i)))
             Rows == [i \in 1..c.m |-> Rd(Row(i), 2 + i)]
             Cell(i) == <<<<"Bytes", Digits(i)>>>>
             End == Rd(R(EofBody(FALSE, 2, 5)), 3 + c.m)
             EndOk == [ok |-> [ar |-> 0, w |-> 5]]
             Next1(i) == <<CallE("next", None), Rd(Row(i), 2 + i), RetE([row |-> Cell(i)])>>
         IN (CASE c.op = "collect" -> Open(1) \o <<CallE("collect", None)>> \o Rows \o <<End, RetE([rows |-> [i \in 1..c.m |-> Cell(i)]])>> \o After
              [] c.op = "finish" -> Open(1) \o <<CallE("finish", None)>> \o Rows \o <<End, RetE(EndOk)>> \o After
              [] c.op = "one" -> Open(1) \o <<CallE("one", None)>> \o Rows \o <<End, RetE([row |-> Cell(1)])>> \o After
              [] c.op = "next" -> Open(1) \o [j \in 1..3 * c.m |-> Next1((j + 2) \div 3)[1 + ((j - 1) % 3)]] \o <<CallE("next", None), End, RetE([row |-> "none"])>> \o After
              [] c.op = "skip" -> Open(1) \o <<CallE("exec", [sql |-> "z"])>> \o Rows \o <<End>> \o Tail(After)
              [] c.op = "cleanup" -> Open(1) \o <<CallE("cleanup", None)>> \o Rows \o <<End, RetE(EndOk)>> \o After
              \* very many commands, statements and executions of one connection
              [] c.op = "execs" -> [j \in 1..4 * c.m |-> After[1 + ((j - 1) % 4)]]
              [] c.op = "stmts" -> Prep(0) \o [j \in 1..9 * c.m |-> Stmt1[1 + ((j - 1) % 9)]]
              [] c.op = "sexecs" -> Prep(1) \o [j \in 1..4 * c.m |-> LET p == <<[t |-> IF ((j - 1) \div 4) % 3 = 0 THEN "n" ELSE "b", z |-> ((j - 1) \div 4) % 300]>> IN
                                        CASE j % 4 = 1 -> CallE("sexec", [params |-> <<PVal(p[1], 1)>>]) [] j % 4 = 2 -> W(PExec(p)) [] j % 4 = 3 -> Rd(OkP, 1) [] OTHER -> RetE([ok |-> [ar |-> 7]])]
              \* the results of one command, of which the last is the first without a further one
              [] c.op = "results" -> <<CallE("exec", [sql |-> "q"]), W(R(<<3>> \o Str("q"))), Rd(R(OkBody(1, 0, 10, 0, <<>>)), 1), RetE([ok |-> [ar |-> 1]]), CallE("exec", [sql |-> "z"])>>
                                       \o [i \in 1..c.m |-> Rd(R(OkBody(i % 200, 0, IF i = c.m THEN 2 ELSE 10, 0, <<>>)), 1 + i)] \o Tail(After))
    [] c.f = "seq" -> SeqEv(c.at, c.s)
    [] c.f = "wrapseq" ->
         Open(1) \o Cat([i \in 1..c.m |-> <<CallE("next", None), Rd(R(LenStr(Digits(i))), 2 + i), RetE([row |-> <<<<"Bytes", Digits(i)>>>>])>>])
           \o <<CallE("next", None), Rd(R(LenStr(Digits(1))), 3 + c.m + c.by)>> \o OosThen
    [] c.f = "slow" ->
         \* every frame takes nearly as long as the client waits
         LET z == CellSize(c.z)  row == CellR(z)  n == NFrames(RLen(row)) IN
         Open(1) \o <<CallE("next", None)>> \o Slow("r", Frames(row, 3)) \o <<RetE([row |-> <<<<"Bytes", Data(z, 1)>>>>]), CallE("next", None), Rd(Eof, 3 + n), RetE([row |-> "none"]),
           CallE("exec", [sql |-> Data(c.z - 1, 3)])>> \o Slow("w", Frames(R(<<3>>) \o Data(c.z - 1, 3), 0)) \o <<Rd(OkP, NFrames(c.z)), RetE([ok |-> [ar |-> 7]])>> \o After
    [] c.f = "slowstall" ->
         \* nothing but the last frame does not arrive
         LET row == CellR(CellSize(c.z))  f == Frames(row, 3) IN
         Open(1) \o <<CallE("next", None)>> \o Slow("r", SubSeq(f, 1, Len(f) - 1)) \o <<[k |-> "stall"], RetE([err |-> "timeout", lax |-> TRUE, ms |-> 1000]), CallE("exec", [sql |-> "z"]), RetE([err |-> "local", lax |-> TRUE])>>
    [] c.f = "mseq" ->
         Open(1) \o <<CallE("next", None), Tampered(CellR(CellSize(c.z)), 3, c.at, c.by)>> \o OosThen

Cases ==
  CASE Fam = "big" -> {[f |-> "out", op |-> o, z |-> z] : o \in {"exec", "prepare"}, z \in Sizes} \cup {[f |-> x, z |-> z] : x \in {"in", "drop", "in2"}, z \in Sizes}
    [] Fam = "long" -> {[f |-> "param", i |-> i] : i \in 1..Len(ParamLists)}
    [] Fam = "small" -> {[f |-> x, op |-> "exec", z |-> z, fr |-> fr] : x \in {"out", "in"}, z \in Sizes, fr \in 0..5}
                          \cup {[f |-> x, op |-> "prepare", z |-> z, fr |-> fr] : x \in {"out", "drop", "in2"}, z \in Sizes, fr \in 0..5}
    [] Fam = "seq" -> {[f |-> "seq", at |-> a, s |-> s] : a \in {1, 3, 5}, s \in 0..255} \cup {[f |-> "seq", at |-> a, s |-> s] : a \in {2, 4, 6, 7, 8}, s \in {0, 1, 2, 3, 4, 5, 6, 9, 127, 128, 129, 130, 253, 254, 255}}
    [] Fam = "wrap" -> {[f |-> "rows", n |-> n, m |-> m] : n \in {1, 2, 5}, m \in {0, 1, 249, 250, 251, 252, 253, 254, 255, 256, 257, 600}}
                          \cup {[f |-> "rows", n |-> n, m |-> 3] : n \in {249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 520}}
                          \cup {[f |-> "wrapseq", m |-> m, by |-> b] : m \in {251, 252, 253, 254, 300}, b \in {1, 255, 128, 2, 254}}
    [] Fam = "many" -> {[f |-> "many", op |-> o, m |-> m] : o \in {"collect", "finish", "one", "next", "skip", "cleanup", "results", "execs", "stmts", "sexecs"}, m \in Sizes}
    [] Fam = "slow" -> {[f |-> x, z |-> z] : x \in {"slow", "slowstall"}, z \in {FMax, FMax + 1, 2 * FMax + 5}}
    [] Fam = "mseq" -> {[f |-> "mseq", z |-> z, at |-> a, by |-> b] : z \in {FMax, FMax + 1}, a \in {1, 2}, b \in {1, 255}}
                          \cup {[f |-> "mseq", z |-> 2 * FMax, at |-> 3, by |-> b] : b \in {1, 254}}

\* only the numbers that are wrong
Wrong(c) == IF c.f = "seq" THEN c.s # RightSeq(c.at) ELSE TRUE
\* the memory that may be kept in one piece once all is over: the buffers are put back, and cut down to their cap
Keep == 4194304
Scenario == [opts |-> PreludeOpts, keep |-> Keep, what |-> case, ev |-> Prelude(FALSE) \o Events(case)]
Init == /\ case \in {c \in Cases : Wrong(c)}
        /\ pkt = 0 /\ left = 0 /\ sent = 0 /\ wseq = 0 /\ wire = 0 /\ inbuf = 0 /\ rseq = 0 /\ st = 0
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Emit == PrintT("@@" \o ToJson(IF "fr" \in DOMAIN case THEN Scenario @@ [frag |-> case.fr] ELSE Scenario))
\* cutting and joining again is the identity; the frames have the sizes they must have
CutJoin == case.f \in {"in", "mseq", "drop"} =>
   LET p == CellR(CellSize(case.z))  fs == Frames(p, 250) IN
   /\ RNorm(FlattenSeq([i \in 1..Len(fs) |-> fs[i].b])) = RNorm(p)
   /\ case.z \in {FMax - 1, FMax, FMax + 1, 2 * FMax - 1, 2 * FMax, 2 * FMax + 1} => RLen(p) = case.z
   /\ \A i \in 1..(Len(fs) - 1) : RLen(fs[i].b) = FMax
   /\ RLen(fs[Len(fs)].b) < FMax
   /\ Len(fs) = NFrames(RLen(p))
=============================================================================
