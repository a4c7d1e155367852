------------------------------- MODULE Answers -------------------------------
(* What an answer carries besides rows: the fields of OK packets, of the packets that end rows (modern and legacy), of error
   packets wherever the server may send one, and of column definitions; every field at the borders of its form.
   Numbers of 64 bits are sequences of eight bytes (little endian). *)
EXTENDS Wire, FiniteSets, Json

CONSTANTS Fam
VARIABLE case

(******************************* numbers *******************************)
\* 2^n, and one less, as bytes
Pow(n) == [i \in 1..8 |-> IF i - 1 = n \div 8 THEN 2^(n % 8) ELSE 0]
PowLess(n) == [i \in 1..8 |-> IF i - 1 < n \div 8 THEN 255 ELSE IF i - 1 = n \div 8 THEN 2^(n % 8) - 1 ELSE 0]
Small(n) == U64(n)
Numbers == {Small(n) : n \in {0, 1, 127, 128, 249, 250, 251, 252, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 16777214, 16777215, 16777216, 16777217}}
           \cup {Pow(n) : n \in 0..63} \cup {PowLess(n) : n \in 1..63} \cup {[i \in 1..8 |-> 255], <<1, 2, 3, 4, 5, 6, 7, 8>>, <<254, 253, 252, 251, 250, 249, 248, 247>>, <<255, 255, 255, 255, 0, 0, 0, 1>>}
NumberSeq == SetToSeq(Numbers)
\* the shortest length-encoded form
From(x, k) == \A i \in k..8 : x[i] = 0
LenEncB(x) == IF From(x, 2) /\ x[1] < 251 THEN <<x[1]>>
              ELSE IF From(x, 3) THEN <<252, x[1], x[2]>>
              ELSE IF From(x, 4) THEN <<253, x[1], x[2], x[3]>>
              ELSE <<254>> \o x
\* reading it
ReadLenEnc(b) == IF b[1] < 251 THEN <<b[1], 0, 0, 0, 0, 0, 0, 0>>
                 ELSE IF b[1] = 252 THEN SubSeq(b, 2, 3) \o Zeros(6) ELSE IF b[1] = 253 THEN SubSeq(b, 2, 4) \o Zeros(5) ELSE SubSeq(b, 2, 9)

(******************************* texts *******************************)
\* pieces: a byte, or <<byte, times>>
RECURSIVE PLen(_)
PLen(p) == FoldLeft(LAMBDA a, x : a + x, 0, [i \in 1..Len(p) |-> p[i][2]])
Plain(s) == [i \in 1..Len(s) |-> <<s[i], 1>>]
PFrame(p, seq) == Plain(U24(PLen(p)) \o <<seq % 256>>) \o p
PLenStr(p) == Plain(LenEnc(PLen(p))) \o p
Umlaut == <<195, 164>>        Sign == <<226, 130, 172>>       Smile == <<240, 159, 152, 128>>
Repeat(c, n) == <<<<c, n>>>>
TextLens == <<1, 2, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 511, 512, 1000, 65534, 65535, 65536, 65537, 70000>>
Texts == <<<<>>>> \o [i \in 1..Len(TextLens) |-> Repeat(97 + (i % 26), TextLens[i])]
         \o <<Plain(Str("Rows matched: 1  Changed: 1  Warnings: 0")), Plain(Umlaut \o Sign \o Smile), Plain(<<34, 39, 92, 96>>), Plain(<<0>>), Plain(<<0, 65, 0>>), Plain(<<10, 13, 9, 26, 127>>),
              Repeat(97, 250) \o Plain(Umlaut), Plain(<<239, 191, 189>>), Plain(<<244, 143, 191, 191>>), Plain(<<35>>), Repeat(35, 6)>>

(******************************* fields *******************************)
Warnings == {0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65279, 65534, 65535}
\* every bit of the status but the one no server sets and the one that announces another result
StatusBits == {0, 1} \cup 4..15
Statuses == {0} \cup {2^b : b \in StatusBits} \cup {2 + 2^b : b \in StatusBits \ {1}} \cup {2^a + 2^b : a \in {0, 4, 8}, b \in {5, 9, 15}} \cup {65535 - 4 - 8}
OkRec == [ar |-> Small(0), li |-> Small(0), st |-> 2, w |-> 0, msg |-> <<>>]
OkPieces(o) == Plain(<<0>> \o LenEncB(o.ar) \o LenEncB(o.li) \o U16(o.st) \o U16(o.w)) \o (IF o.msg = <<>> THEN <<>> ELSE PLenStr(o.msg))
EndPieces(leg, o) == IF leg THEN Plain(<<254>> \o U16(o.w) \o U16(o.st)) ELSE Plain(<<254, 0, 0>> \o U16(o.st) \o U16(o.w)) \o (IF o.msg = <<>> THEN <<>> ELSE PLenStr(o.msg))
OkSeq ==
  SetToSeq({[OkRec EXCEPT !.ar = n] : n \in Numbers}) \o SetToSeq({[OkRec EXCEPT !.li = n] : n \in Numbers})
    \o [i \in 1..Len(NumberSeq) |-> [OkRec EXCEPT !.ar = NumberSeq[i], !.li = NumberSeq[Len(NumberSeq) + 1 - i], !.w = i, !.st = 3]]
    \o SetToSeq({[OkRec EXCEPT !.st = s] : s \in Statuses}) \o SetToSeq({[OkRec EXCEPT !.w = w] : w \in Warnings})
    \o SetToSeq({[OkRec EXCEPT !.st = s, !.w = 65535 - s, !.ar = Small(s)] : s \in Statuses})
    \o [i \in 1..Len(Texts) |-> [OkRec EXCEPT !.msg = Texts[i]]] \o [i \in 1..Len(Texts) |-> [OkRec EXCEPT !.msg = Texts[i], !.ar = Pow(2 * i), !.st = 16386]]
\* the end of rows carries neither affected rows nor an id
EndSeq == SetToSeq({[OkRec EXCEPT !.st = s] : s \in Statuses}) \o SetToSeq({[OkRec EXCEPT !.w = w] : w \in Warnings}) \o SetToSeq({[OkRec EXCEPT !.st = s, !.w = 65535 - s] : s \in Statuses})
EndSeqM == EndSeq \o [i \in 1..Len(Texts) |-> [OkRec EXCEPT !.msg = Texts[i], !.w = i]]
OkWant(o) == [ar |-> o.ar, li |-> o.li, st |-> o.st, w |-> o.w, msg |-> o.msg]
EndWant(leg, o) == [ar |-> 0, li |-> 0, st |-> o.st, w |-> o.w, msg |-> IF leg THEN <<>> ELSE o.msg]

ErrRec == [code |-> 1064, state |-> Str("42000"), msg |-> Plain(Str("You have an error"))]
ErrPieces(e) == Plain(<<255>> \o U16(e.code) \o <<35>> \o e.state) \o e.msg
Codes == {0, 1, 255, 256, 1000, 1040, 1062, 1064, 1146, 1205, 1213, 1317, 2006, 3024, 4031, 10000, 32767, 32768, 65279, 65280, 65534, 65535}
States == {Str("00000"), Str("HY000"), Str("42S02"), Str("08S01"), Str("ZZZZZ"), Str("#####"), Str("     "), Str("23000")}
ErrSeq == SetToSeq({[ErrRec EXCEPT !.code = c] : c \in Codes}) \o SetToSeq({[ErrRec EXCEPT !.state = s] : s \in States})
          \o [i \in 1..Len(Texts) |-> [ErrRec EXCEPT !.msg = Texts[i]]] \o SetToSeq({[ErrRec EXCEPT !.code = c, !.msg = <<>>] : c \in {0, 255, 1062, 65535}})
ErrWant(e) == [k |-> "ret", err |-> "server", code |-> e.code, state |-> e.state, msg |-> e.msg]

(******************************* columns *******************************)
\* the types of the protocol
Types == (0..20) \cup {243} \cup 245..255
ColRec == [db |-> Plain(Str("d")), t |-> Plain(Str("t")), ot |-> Plain(Str("ot")), n |-> Plain(Str("n")), on |-> Plain(Str("on")), cs |-> 45, len |-> <<0, 4, 0, 0>>, ty |-> 253, f |-> 0, dec |-> 0]
DefPieces(c) == Plain(LenStr(Str("def"))) \o PLenStr(c.db) \o PLenStr(c.t) \o PLenStr(c.ot) \o PLenStr(c.n) \o PLenStr(c.on)
                \o Plain(<<12>> \o U16(c.cs) \o c.len \o <<c.ty>> \o U16(c.f) \o <<c.dec, 0, 0>>)
Flags == {0} \cup {2^b : b \in 0..15} \cup {65535 - 2^b : b \in 0..15} \cup {65535, 32 + 128, 4097}
ColWant(c) == [n |-> c.n, on |-> c.on, t |-> c.t, ot |-> c.ot, ty |-> c.ty, f |-> c.f]
ColSeqs == <<
  SetToSeq({[ColRec EXCEPT !.ty = t] : t \in Types}),
  SetToSeq({[ColRec EXCEPT !.f = f] : f \in Flags}),
  SetToSeq({[ColRec EXCEPT !.ty = t, !.f = f] : t \in {3, 8, 252, 254}, f \in Flags}),
  [i \in 1..Len(Texts) |-> [ColRec EXCEPT !.n = Texts[i]]],
  [i \in 1..Len(Texts) |-> [ColRec EXCEPT !.on = Texts[i]]],
  [i \in 1..Len(Texts) |-> [ColRec EXCEPT !.t = Texts[i]]],
  [i \in 1..Len(Texts) |-> [ColRec EXCEPT !.ot = Texts[i]]],
  [i \in 1..Len(Texts) |-> [ColRec EXCEPT !.db = Texts[i]]],
  [i \in 1..Len(Texts) |-> [ColRec EXCEPT !.db = <<>>, !.t = <<>>, !.ot = <<>>, !.on = <<>>, !.n = Texts[i]]],
  [i \in 1..Len(Texts) |-> LET x(k) == Texts[((i + k - 1) % Len(Texts)) + 1] IN [ColRec EXCEPT !.db = x(0), !.t = x(1), !.ot = x(2), !.on = x(3), !.n = x(4)]],
  SetToSeq({[ColRec EXCEPT !.cs = c, !.dec = c % 256] : c \in {0, 8, 33, 63, 45, 255, 256, 65535}}),
  SetToSeq({[ColRec EXCEPT !.len = l, !.dec = d] : l \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>, <<21, 0, 0, 0>>}, d \in {0, 6, 31, 255}}) >>
Counts == {1, 2, 249, 250, 251, 252, 253, 254, 255, 256, 257, 511, 512, 4095, 4096, 4097}

(******************************* behaviours *******************************)
CallE(op) == <<[k |-> "call", op |-> op]>>
Query == <<[k |-> "call", op |-> "query", sql |-> "q"], [k |-> "w", b |-> Plain(Frame(<<3>> \o Str("q"), 0))]>>
Exec == <<[k |-> "call", op |-> "exec", sql |-> "q"], [k |-> "w", b |-> Plain(Frame(<<3>> \o Str("q"), 0))]>>
R(p, seq) == <<[k |-> "r", b |-> PFrame(p, seq)]>>
Ret(f) == <<[k |-> "ret"] @@ f>>
LastAr == [OkRec EXCEPT !.ar = Small(41)]
Defs(cs) == Cat([i \in 1..Len(cs) |-> R(DefPieces(cs[i]), 1 + i)])
EofE(leg, seq) == IF leg THEN R(EndPieces(TRUE, OkRec), seq) ELSE <<>>
One == <<[ColRec EXCEPT !.ty = 8]>>
Bin == <<[k |-> "call", op |-> "squery", params |-> <<>>], [k |-> "w", b |-> Plain(Frame(<<23>> \o U32(9) \o <<0, 1, 0, 0, 0>>, 0))]>>
SExec == <<[k |-> "call", op |-> "sexec", params |-> <<>>], [k |-> "w", b |-> Plain(Frame(<<23>> \o U32(9) \o <<0, 1, 0, 0, 0>>, 0))]>>
PrepareW == <<[k |-> "call", op |-> "prepare", sql |-> "p"], [k |-> "w", b |-> Plain(Frame(<<22>> \o Str("p"), 0))]>>
Prepare == PrepareW \o R(Plain(<<0>> \o U32(9) \o U16(0) \o U16(0) \o <<0, 0, 0>>), 1) \o Ret([stmt |-> 0])
Lead(leg) == R(Plain(<<1>>), 1) \o Defs(One) \o EofE(leg, 3) \o Ret([cols |-> <<ColWant(One[1])>>])
S0(leg) == IF leg THEN 4 ELSE 3
CellX == Plain(<<2, 52, 50>>)
CellB == Plain(<<0, 0, 42, 0, 0, 0, 0, 0, 0, 0>>)
Row42 == Ret([row |-> <<<<"Long", 42>>>>])

EndOf(op, leg, o) ==
  CASE op = "next" -> CallE("next") \o R(CellX, S0(leg)) \o Row42 \o CallE("finish") \o R(EndPieces(leg, o), S0(leg) + 1) \o Ret([ok |-> EndWant(leg, o)])
    [] op = "finish" -> CallE("finish") \o R(CellX, S0(leg)) \o R(EndPieces(leg, o), S0(leg) + 1) \o Ret([ok |-> EndWant(leg, o)])
    [] op = "finish_inner" -> CallE("finish_inner") \o R(EndPieces(leg, o), S0(leg)) \o Ret([ok |-> EndWant(leg, o), cols |-> <<ColWant(One[1])>>])

Events(c) ==
  CASE c.fam = "exec" -> Cat([i \in 1..Len(OkSeq) |-> Exec \o R(OkPieces(OkSeq[i]), 1) \o Ret([ok |-> OkWant(OkSeq[i])])])
    [] c.fam = "sexec" -> Prepare \o Cat([i \in 1..Len(OkSeq) |-> SExec \o R(OkPieces(OkSeq[i]), 1) \o Ret([ok |-> OkWant(OkSeq[i])])])
    \* an answer without rows to a query
    [] c.fam = "query" -> Cat([i \in 1..Len(OkSeq) |-> Query \o R(OkPieces(OkSeq[i]), 1) \o Ret([cols |-> <<>>]) \o CallE("finish") \o Ret([ok |-> OkWant(OkSeq[i])])])
    [] c.fam = "end" -> LET s == IF c.leg THEN EndSeq ELSE EndSeqM IN Cat([i \in 1..Len(s) |-> Query \o Lead(c.leg) \o EndOf(c.op, c.leg, s[i])])
    [] c.fam = "bend" -> LET s == IF c.leg THEN EndSeq ELSE EndSeqM IN Prepare \o Cat([i \in 1..Len(s) |->
           Bin \o Lead(c.leg) \o CallE("next") \o R(CellB, S0(c.leg)) \o Row42 \o CallE("finish") \o R(EndPieces(c.leg, s[i]), S0(c.leg) + 1) \o Ret([ok |-> EndWant(c.leg, s[i])])])
    [] c.fam = "errexec" -> Cat([i \in 1..Len(ErrSeq) |-> Exec \o R(ErrPieces(ErrSeq[i]), 1) \o <<ErrWant(ErrSeq[i])>>])
    [] c.fam = "errquery" -> Cat([i \in 1..Len(ErrSeq) |-> Query \o R(ErrPieces(ErrSeq[i]), 1) \o <<ErrWant(ErrSeq[i])>>])
    [] c.fam = "errsexec" -> Prepare \o Cat([i \in 1..Len(ErrSeq) |-> SExec \o R(ErrPieces(ErrSeq[i]), 1) \o <<ErrWant(ErrSeq[i])>>])
    [] c.fam = "errprep" -> Cat([i \in 1..Len(ErrSeq) |-> PrepareW \o R(ErrPieces(ErrSeq[i]), 1) \o <<ErrWant(ErrSeq[i])>>])
    \* in place of a row
    [] c.fam = "errrow" -> Cat([i \in 1..Len(ErrSeq) |-> Query \o Lead(c.leg) \o CallE("next") \o R(CellX, S0(c.leg)) \o Row42 \o CallE("next") \o R(ErrPieces(ErrSeq[i]), S0(c.leg) + 1) \o <<ErrWant(ErrSeq[i])>>])
    [] c.fam = "errbrow" -> Prepare \o Cat([i \in 1..Len(ErrSeq) |-> Bin \o Lead(c.leg) \o CallE("next") \o R(ErrPieces(ErrSeq[i]), S0(c.leg)) \o <<ErrWant(ErrSeq[i])>>])
    [] c.fam = "cols" -> LET cs == ColSeqs[c.i] IN
           Query \o R(Plain(LenEnc(Len(cs))), 1) \o Defs(cs) \o EofE(c.leg, 2 + Len(cs)) \o Ret([cols |-> [i \in 1..Len(cs) |-> ColWant(cs[i])]])
             \o CallE("columns") \o Ret([cols |-> [i \in 1..Len(cs) |-> ColWant(cs[i])]])
             \o CallE("finish") \o R(EndPieces(c.leg, OkRec), (IF c.leg THEN 3 ELSE 2) + Len(cs)) \o Ret([ok |-> EndWant(c.leg, OkRec)])
    [] c.fam = "count" -> LET d == [i \in 1..c.n |-> [ColRec EXCEPT !.n = Plain(Str("c") \o Dec(i)), !.ty = 253]] IN
           Query \o R(Plain(LenEnc(c.n)), 1) \o Defs(d) \o Ret([cols |-> [i \in 1..c.n |-> ColWant(d[i])]])
             \o CallE("next") \o R(Plain(Cat([i \in 1..c.n |-> IF i % 3 = 0 THEN <<251>> ELSE <<1, 48 + (i % 10)>>])), 2 + c.n)
             \o Ret([row |-> [i \in 1..c.n |-> IF i % 3 = 0 THEN <<"Null">> ELSE <<"Bytes", <<48 + (i % 10)>>>>]])
             \o CallE("finish") \o R(EndPieces(FALSE, OkRec), 3 + c.n) \o Ret([ok |-> EndWant(FALSE, OkRec)])

LegOf(c) == IF "leg" \in DOMAIN c THEN c.leg ELSE FALSE
Cases ==
  CASE Fam = "ok" -> {[fam |-> f] : f \in {"exec", "sexec", "query"}}
    [] Fam = "end" -> {[fam |-> "end", op |-> op, leg |-> l] : op \in {"next", "finish", "finish_inner"}, l \in BOOLEAN} \cup {[fam |-> "bend", leg |-> l] : l \in BOOLEAN}
    [] Fam = "err" -> {[fam |-> f] : f \in {"errexec", "errquery", "errsexec", "errprep"}} \cup {[fam |-> f, leg |-> l] : f \in {"errrow", "errbrow"}, l \in BOOLEAN}
    [] Fam = "cols" -> {[fam |-> "cols", i |-> i, leg |-> l] : i \in 1..Len(ColSeqs), l \in BOOLEAN} \cup {[fam |-> "count", n |-> n] : n \in Counts}

\* the client must go on as usual
Prepared(c) == c.fam \in {"sexec", "bend", "errsexec", "errbrow"}
\* a statement that was dropped is closed first
After(c) == <<[k |-> "call", op |-> "exec", sql |-> "q"]>> \o (IF Prepared(c) THEN <<[k |-> "w", b |-> Plain(Frame(<<25>> \o U32(9), 0))]>> ELSE <<>>) \o SubSeq(Exec, 2, 2) \o R(OkPieces(LastAr), 1) \o Ret([ok |-> OkWant(LastAr)])
Scenario == [opts |-> PreludeOpts, what |-> case, ev |-> Prelude(LegOf(case)) \o Events(case) \o After(case)]

Init == case \in Cases
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case
Emit == PrintT("@@" \o ToJson(Scenario))

(******************************* properties *******************************)
\* the form is the shortest and denotes the number
Denoted == \A x \in Numbers : ReadLenEnc(LenEncB(x)) = x /\ (LenEncB(x)[1] = 254 => \E i \in 4..8 : x[i] # 0)
\* lengths of texts use the same form
LengthsAgree == \A n \in 0..70000 : n \in {0, 1, 250, 251, 255, 256, 65535, 65536, 70000} => LenEnc(n) = LenEncB(Small(n))
\* what the server sends in place of a row or of an OK packet is none
Told == /\ \A i \in 1..Len(ErrSeq) : ErrPieces(ErrSeq[i])[1][1] = 255
        /\ \A i \in 1..Len(EndSeq) : PLen(EndPieces(TRUE, EndSeq[i])) = 5
=============================================================================
