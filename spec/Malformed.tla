------------------------------ MODULE Malformed ------------------------------
(* A server that sends anything.

   A dialogue is a program of the client (a sequence of calls) and the packets the server sends meanwhile; every packet
   belongs to the call that reads it.  The dialogues are well-formed; the server then damages one or more of the packets.
   Read(ctx, body) is a reference decoder of every kind of packet (what the context expects): it tells whether a packet
   holds what it declares ("ok"), ends before ("short"), or whether the protocol leaves open what it is ("any").
   Demanded of the real client: no panic, no memory out of proportion, the calls before the damage succeed, and a call
   whose packet is short fails. *)
EXTENDS Wire, FiniteSets, Json

CONSTANTS Dialogues, Muts, Vals, Depth, Stride
VARIABLES d, pk, at, done

(******************************* dialogues *******************************)
P(ctx, call, seq, body) == [ctx |-> ctx, call |-> call, seq |-> seq, b |-> body]
Op(op) == [op |-> op]
Greeting(plugin, leg) == GreetingBody(Str("8.0.36"), 77, CapsServer(leg), Nonce20, 2, Str(plugin))
OkP == OkBody(0, 0, 2, 0, <<>>)
Login(leg) == <<P("greeting", 1, 0, Greeting("mysql_native_password", leg)), P("auth", 1, 2, OkP)>>
Def(t, flags, name) == DefBody(Str("db"), Str("t"), Str("t"), Str(name), Str(name), 63, 1024, t, flags, 6)
\* columns: type, flags, text, binary
Columns == <<
  [t |-> 8, f |-> 32, x |-> Str("18446744073709551615"), b |-> <<255, 255, 255, 255, 255, 255, 255, 255>>],
  [t |-> 253, f |-> 0, x |-> Str("text"), b |-> LenStr(Str("text"))],
  [t |-> 12, f |-> 0, x |-> Str("2024-02-29 23:59:58.000123"), b |-> <<11, 232, 7, 2, 29, 23, 59, 58, 123, 0, 0, 0>>],
  [t |-> 10, f |-> 0, x |-> Str("1999-12-31"), b |-> <<4, 207, 7, 12, 31>>],
  [t |-> 11, f |-> 0, x |-> Str("-838:59:58.5"), b |-> <<12, 1, 34, 0, 0, 0, 22, 59, 58, 32, 161, 7, 0>>],
  [t |-> 5, f |-> 0, x |-> Str("-1.5e10"), b |-> <<0, 0, 0, 32, 95, 160, 11, 194>>],
  [t |-> 4, f |-> 0, x |-> Str("0.5"), b |-> <<0, 0, 0, 63>>],
  [t |-> 1, f |-> 0, x |-> Str("-128"), b |-> <<128>>],
  [t |-> 13, f |-> 96, x |-> Str("2024"), b |-> <<232, 7>>],
  [t |-> 9, f |-> 0, x |-> Str("-8388608"), b |-> <<0, 0, 128, 255>>],
  [t |-> 7, f |-> 0, x |-> Str("2038-01-19 03:14:07"), b |-> <<7, 246, 7, 1, 19, 3, 14, 7>>] >>
CONSTANTS NCols
Cols(k) == SubSeq(Columns, 1, k)
DefsOf(cs, call, s0) == [i \in 1..Len(cs) |-> P("def", call, s0 + i - 1, Def(cs[i].t, cs[i].f, "c" \o ToString(i)))]
DefEnd(leg, call, s) == IF leg THEN <<P("defend", call, s, EofBody(TRUE, 2, 0))>> ELSE <<>>
\* NULL in the last row, second column
XRow(cs, null) == Cat([i \in 1..Len(cs) |-> IF i = null THEN <<251>> ELSE LenStr(cs[i].x)])
BRow(cs, null) == <<0>> \o [j \in 1..((Len(cs) + 9) \div 8) |-> IF null > 0 /\ (null + 1) \div 8 = j - 1 THEN 2^((null + 1) % 8) ELSE 0]
                  \o Cat([i \in 1..Len(cs) |-> IF i = null THEN <<>> ELSE cs[i].b])
Rows(cs, leg, bin, call, s) ==
  <<P(IF bin THEN "brow" ELSE "xrow", call + 1, s, IF bin THEN BRow(cs, 0) ELSE XRow(cs, 0)),
    P(IF bin THEN "brow" ELSE "xrow", call + 2, s + 1, IF bin THEN BRow(cs, 2) ELSE XRow(cs, 2)),
    P(IF bin THEN "brow" ELSE "xrow", call + 3, s + 2, EofBody(leg, 2, 1))>>
ResultOf(cs, leg, bin, call) ==
  <<P("head", call, 1, LenEnc(Len(cs)))>> \o DefsOf(cs, call, 2) \o DefEnd(leg, call, 2 + Len(cs))
    \o Rows(cs, leg, bin, call, 2 + Len(cs) + (IF leg THEN 1 ELSE 0))
PrepOk(c, p) == <<0>> \o U32(9) \o U16(c) \o U16(p) \o <<0, 0, 0>>

(* keys: DER in PEM *)
Alphabet == Str("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64(x) == Cat([g \in 1..((Len(x) + 2) \div 3) |->
  LET n == Len(x) - 3 * (g - 1)
      a == x[3 * g - 2]  b == IF n >= 2 THEN x[3 * g - 1] ELSE 0  c == IF n >= 3 THEN x[3 * g] ELSE 0
  IN <<Alphabet[(a \div 4) + 1], Alphabet[((a % 4) * 16) + (b \div 16) + 1],
       IF n >= 2 THEN Alphabet[((b % 16) * 4) + (c \div 64) + 1] ELSE 61, IF n >= 3 THEN Alphabet[(c % 64) + 1] ELSE 61>>])
DerLen(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
Der(tag, body) == <<tag>> \o DerLen(Len(body)) \o body
Modulus == [i \in 1..64 |-> IF i = 64 THEN 201 ELSE 255 - i]
Pkcs1(n, e) == Der(48, Der(2, n) \o Der(2, e))
Pkcs8(n, e) == Der(48, Der(48, <<6, 9, 42, 134, 72, 134, 247, 13, 1, 1, 1, 5, 0>>) \o Der(3, <<0>> \o Pkcs1(n, e)))
Ends(label) == <<Str("-----BEGIN ") \o label \o Str("-----"), Str("-----END ") \o label \o Str("-----")>>
L1 == Str("RSA PUBLIC KEY")
L8 == Str("PUBLIC KEY")
PemOf(der, label) == Ends(label)[1] \o <<10>> \o B64(der) \o <<10>> \o Ends(label)[2] \o <<10>>
Exp == <<1, 0, 1>>
\* keys no server should have
OddModuli == <<<<>>, <<0>>, <<1>>, <<2>>, <<0, 0>>, <<1, 1>>, Zeros(64), [i \in 1..64 |-> 255], [i \in 1..64 |-> IF i = 1 THEN 128 ELSE 0], <<0>> \o Modulus, Zeros(70) \o Modulus, [i \in 1..48 |-> 251], [i \in 1..49 |-> 251],
               [i \in 1..50 |-> 251], [i \in 1..51 |-> IF i = 1 THEN 1 ELSE 251], [i \in 1..49 |-> IF i = 49 THEN 1 ELSE 0], [i \in 1..600 |-> 253]>>
OddExps == <<<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<0, 0, 0>>, Exp, [i \in 1..64 |-> 255]>>
OddDers == [i \in 1..(Len(OddModuli) * Len(OddExps)) |-> LET n == OddModuli[((i - 1) \div Len(OddExps)) + 1]  e == OddExps[((i - 1) % Len(OddExps)) + 1] IN IF i % 2 = 0 THEN <<Pkcs1(n, e), L1>> ELSE <<Pkcs8(n, e), L8>>]
WrongEnds == <<<<Pkcs1(Modulus, Exp), L8>>, <<Pkcs8(Modulus, Exp), L1>>, <<<<>>, L1>>, <<<<>>, L8>>, <<<<48, 0>>, L1>>, <<<<48, 0>>, L8>>, <<Zeros(60), L1>>, <<[i \in 1..60 |-> 48], L8>>>>
\* lengths no DER has
DerLens == <<<<128>>, <<129>>, <<129, 255>>, <<132, 255, 255, 255, 255>>, <<136, 255, 255, 255, 255, 255, 255, 255, 255>>, <<136, 127, 255, 255, 255, 255, 255, 255, 255>>, <<136, 128, 0, 0, 0, 0, 0, 0, 0>>, <<137, 1, 1, 1, 1, 1, 1, 1, 1, 1>>, <<255>>, <<0>>, <<127>>>>
DerHurt(m, der) ==
  CASE m = "trunc" -> {SubSeq(der, 1, i) : i \in 0..(Len(der) - 1)}
    [] m = "len" -> {SubSeq(der, 1, i - 1) \o DerLens[x] \o SubSeq(der, i + 1, Len(der)) : i \in {j \in 1..Len(der) : j <= 40 \/ j > Len(der) - 6}, x \in 1..Len(DerLens)}
    [] m = "set" -> {[der EXCEPT ![i] = x] : i \in {j \in 1..Len(der) : j <= 40 \/ j > Len(der) - 6}, x \in {0, 1, 2, 3, 48, 127, 128, 255}}
KeyPems == {PemOf(x[1], x[2]) : x \in {OddDers[i] : i \in 1..Len(OddDers)} \cup {WrongEnds[i] : i \in 1..Len(WrongEnds)}
              \cup {<<y, L1>> : y \in UNION {DerHurt(m, Pkcs1(Modulus, Exp)) : m \in {"trunc", "len", "set"}}}
              \cup {<<y, L8>> : y \in UNION {DerHurt(m, Pkcs8(Modulus, Exp)) : m \in {"trunc", "len", "set"}}}}
           \cup {SubSeq(PemOf(Pkcs1(Modulus, Exp), L1), 1, n) \o t : n \in {0, 10, 26, 30, 31, 32, 60}, t \in {<<>>, Ends(L1)[2], Ends(L8)[2]}}
           \cup {Ends(L1)[1] \o x \o Ends(L1)[2] : x \in {<<>>, <<61>>, <<61, 61, 61, 61>>, <<65>>, <<65, 65, 65>>, <<0, 0, 0, 0>>, <<195, 164>>, <<255, 255, 255, 255>>}}
           \cup {Ends(L1)[1] \o Ends(L8)[2], Ends(L8)[1] \o Ends(L1)[2], Ends(L8)[1] \o Ends(L8)[2]}

TextD(leg) == LET cs == Cols(NCols) IN [prog |-> <<Op("connect"), Op("query"), Op("next"), Op("next"), Op("next"), Op("exec")>>, leg |-> leg, secure |-> FALSE, force |-> "native", map |-> 4194304,
                pk |-> Login(leg) \o ResultOf(cs, leg, FALSE, 2) \o <<P("answer", 6, 1, OkBody(300, 70000, 2, 3, Str("note")))>>]
BinD(leg) == LET cs == Cols(NCols) IN [prog |-> <<Op("connect"), Op("prepare"), Op("squery"), Op("next"), Op("next"), Op("next"), Op("sexec")>>, leg |-> leg, secure |-> FALSE, force |-> "native", map |-> 4194304,
                pk |-> Login(leg) \o <<P("prep", 2, 1, PrepOk(1, 1)), P("ignored", 2, 2, Def(253, 128, "p"))>> \o DefEnd(leg, 2, 3)
                       \o <<P("ignored", 2, 3 + (IF leg THEN 1 ELSE 0), Def(8, 32, "c1"))>> \o DefEnd(leg, 2, 5)
                       \o ResultOf(cs, leg, TRUE, 3) \o <<P("answer", 7, 1, OkBody(1, 0, 2, 0, <<>>))>>]
Auth1 == [prog |-> <<Op("connect"), Op("exec")>>, leg |-> FALSE, secure |-> TRUE, force |-> "none", map |-> -1,
          pk |-> <<P("greeting", 1, 0, Greeting("mysql_native_password", FALSE)),
                   P("auth", 1, 2, <<254>> \o Str("caching_sha2_password") \o <<0>> \o [i \in 1..20 |-> 100 + i] \o <<0>>),
                   P("auth", 1, 4, <<1, 4>>), P("authend", 1, 6, OkP),
                   P("head", 1, 1, <<1>>), P("def", 1, 2, DefBody(<<>>, <<>>, <<>>, Str("@@max_allowed_packet"), <<>>, 63, 21, 8, 160, 0)),
                   P("srow", 1, 3, LenStr(Str("67108864"))), P("skip", 2, 4, EofBody(FALSE, 2, 0)), P("answer", 2, 1, OkP)>>]
Auth2 == [prog |-> <<Op("connect"), Op("exec")>>, leg |-> FALSE, secure |-> FALSE, force |-> "none", map |-> 4194304,
          pk |-> <<P("greeting", 1, 0, Greeting("caching_sha2_password", FALSE)), P("auth", 1, 2, <<1, 3>>), P("authend", 1, 3, OkP), P("answer", 2, 1, OkP)>>]
Auth3 == [prog |-> <<Op("connect"), Op("exec")>>, leg |-> FALSE, secure |-> FALSE, force |-> "none", map |-> 4194304,
          pk |-> <<P("greeting", 1, 0, Greeting("caching_sha2_password", FALSE)), P("auth", 1, 2, <<1, 4>>), P("key", 1, 4, <<1>> \o PemOf(Pkcs8(Modulus, Exp), L8)), P("authend", 1, 6, OkP), P("answer", 2, 1, OkP)>>]
ErrD == [prog |-> <<Op("connect"), Op("exec"), Op("query")>>, leg |-> FALSE, secure |-> FALSE, force |-> "native", map |-> 4194304,
         pk |-> Login(FALSE) \o <<P("answer", 2, 1, ErrBody(1064, Str("42000"), Str("You have"))), P("head", 3, 1, ErrBody(1146, Str("42S02"), <<195, 164>>))>>]
GreetErr == [prog |-> <<Op("connect")>>, leg |-> FALSE, secure |-> FALSE, force |-> "native", map |-> 4194304, pk |-> <<P("greeting", 1, 0, ErrBody(1040, Str("08004"), Str("Too many")))>>]

\* a server from before the long nonce and the plugins
OldGreeting == <<10>> \o Str("5.0.96") \o <<0>> \o U32(77) \o SubSeq(Nonce20, 1, 8) \o <<0, 7, 34, 33>> \o U16(2) \o <<0, 0, 0>> \o Zeros(10)
Old == [prog |-> <<Op("connect"), Op("exec")>>, leg |-> TRUE, secure |-> FALSE, force |-> "native", map |-> 4194304,
        pk |-> <<P("greeting", 1, 0, OldGreeting), P("auth", 1, 2, OkP), P("answer", 2, 1, OkP)>>]
\* several results for one query; the second is skipped by the next command
Multi(op, leg) == LET cs == Cols(2)  k == IF leg THEN 1 ELSE 0 IN
  [prog |-> <<Op("connect"), Op("query"), Op(op), Op("exec")>>, leg |-> leg, secure |-> FALSE, force |-> "native", map |-> 4194304,
   pk |-> Login(leg) \o <<P("head", 2, 1, LenEnc(2))>> \o DefsOf(cs, 2, 2) \o DefEnd(leg, 2, 4)
            \o <<P("xrow", 3, 4 + k, XRow(cs, 0)), P("xrow", 3, 5 + k, XRow(cs, 2)), P("xrow", 3, 6 + k, EofBody(leg, 10, 1)),
                 P("skiphead", 4, 7 + k, OkBody(3, 0, 10, 0, Str("skipped"))), P("skiphead", 4, 8 + k, LenEnc(2))>> \o DefsOf(cs, 4, 9 + k) \o DefEnd(leg, 4, 11 + k)
            \o <<P("ignored", 4, 11 + 2 * k, XRow(cs, 0)), P("skip", 4, 12 + 2 * k, EofBody(leg, 10, 0)), P("skiphead", 4, 13 + 2 * k, OkBody(3, 0, 2, 0, <<>>)), P("answer", 4, 1, OkP)>>]
Dialogue(n) == CASE n = "old" -> Old [] n = "collect" -> Multi("collect", FALSE) [] n = "one" -> Multi("one", FALSE) [] n = "finish" -> Multi("finish", TRUE) [] n = "text" -> TextD(FALSE) [] n = "textleg" -> TextD(TRUE) [] n = "bin" -> BinD(FALSE) [] n = "binleg" -> BinD(TRUE)
                 [] n = "auth1" -> Auth1 [] n = "auth2" -> Auth2 [] n = "auth3" -> Auth3 [] n = "err" -> ErrD [] n = "greeterr" -> GreetErr
DialogueF == [n \in Dialogues |-> Dialogue(n)]
\* whether a call fails on the undamaged packets
FailsAnyway(n) == n \in {"err", "greeterr"}

(*************************** reference decoder ***************************)
\* a cursor is the number of bytes read, -1 when the packet ended too early, -2 when the form is left open
Sub(b, i, n) == SubSeq(b, i + 1, i + n)
Skip(b, i, n) == IF i < 0 THEN i ELSE IF n < 0 \/ i + n > Len(b) THEN -1 ELSE i + n
RECURSIVE LeN(_, _)
\* number from little endian bytes; capped (every cap is beyond every packet of this module)
LeN(b, k) == IF k = 0 THEN 0 ELSE IF b[k] # 0 /\ k > 3 THEN 16777216 ELSE LET r == LeN(b, k - 1) IN IF r >= 16777216 THEN r ELSE r + b[k] * (256 ^ (IF k > 3 THEN 0 ELSE k - 1))
LenAt(b, i) == \* <<cursor after, value>>
  IF i < 0 THEN <<i, 0>> ELSE IF i >= Len(b) THEN <<-1, 0>>
  ELSE LET x == b[i + 1]
           w == CASE x = 252 -> 2 [] x = 253 -> 3 [] x = 254 -> 8 [] OTHER -> 0
       IN IF x \in {251, 255} THEN <<-2, 0>>
          ELSE IF w = 0 THEN <<i + 1, x>>
          ELSE IF i + 1 + w > Len(b) THEN <<-1, 0>> ELSE <<i + 1 + w, LeN(Sub(b, i + 1, w), w)>>
LenSkip(b, i) == LenAt(b, i)[1]
StrSkip(b, i) == LET l == LenAt(b, i) IN IF l[1] < 0 THEN l[1] ELSE Skip(b, l[1], l[2])
StrAt(b, i) == LET l == LenAt(b, i) IN Sub(b, l[1], l[2])
NulSkip(b, i) == IF i < 0 THEN i ELSE LET S == {j \in (i + 1)..Len(b) : b[j] = 0} IN IF S = {} THEN -1 ELSE CHOOSE j \in S : \A k \in S : j <= k
Verdict(i) == IF i = -1 THEN "short" ELSE IF i = -2 THEN "any" ELSE "ok"

OkEnd(b) == Skip(b, LenSkip(b, LenSkip(b, 1)), 4)
EofEnd(b, leg) == IF leg THEN Skip(b, 1, 4) ELSE OkEnd(b)
\* an error is an error however much of it is there
RECURSIVE DefEndAt(_, _, _)
DefEndAt(b, i, k) == IF k = 0 THEN Skip(b, i, 13) ELSE DefEndAt(b, StrSkip(b, i), k - 1)
RECURSIVE TextEnd(_, _, _)
TextEnd(b, i, k) == IF k = 0 \/ i < 0 THEN i ELSE IF i >= Len(b) THEN -1 ELSE TextEnd(b, IF b[i + 1] = 251 THEN i + 1 ELSE StrSkip(b, i), k - 1)
BinCell(c, b, i) ==
  CASE i < 0 -> i
    [] c.t \in {1} -> Skip(b, i, 1) [] c.t \in {2, 13} -> Skip(b, i, 2) [] c.t \in {3, 4, 9} -> Skip(b, i, 4) [] c.t \in {5, 8} -> Skip(b, i, 8)
    [] c.t = 253 -> StrSkip(b, i)
    [] c.t \in {7, 10, 11, 12} ->
         IF i >= Len(b) THEN -1 ELSE IF i + 1 + b[i + 1] > Len(b) THEN -1
         ELSE IF b[i + 1] \in (CASE c.t = 10 -> {0, 4} [] c.t = 11 -> {0, 8, 12} [] OTHER -> {0, 4, 7, 11}) THEN i + 1 + b[i + 1] ELSE -2
RECURSIVE BinEnd(_, _, _, _)
BinEnd(cs, b, i, k) == IF k > Len(cs) \/ i < 0 THEN i
  ELSE LET bit == k + 1 IN BinEnd(cs, b, IF (b[2 + bit \div 8] \div (2 ^ (bit % 8))) % 2 = 1 THEN i ELSE BinCell(cs[k], b, i), k + 1)
RowEnd(ctx, b) == LET cs == IF ctx = "srow" THEN <<[t |-> 8]>> ELSE IF d \in {"collect", "one", "finish"} THEN Cols(2) ELSE Cols(NCols) IN
  IF ctx = "brow" THEN LET i == Skip(b, 1, (Len(cs) + 9) \div 8) IN IF i < 0 THEN i ELSE BinEnd(cs, b, i, 1)
  ELSE TextEnd(b, 0, Len(cs))
GreetingEnd(b) ==
  LET i == Skip(b, NulSkip(b, 1), 31) IN
  IF i < 0 THEN i ELSE
  LET caps == Sub(b, i - 18, 2)   \* the lower half; SECURE_CONNECTION is bit 15
      n == b[i - 10]
  IN IF caps[2] \div 128 = 1 THEN Skip(b, i, IF n - 8 > 13 THEN n - 8 ELSE 13) ELSE i

Read(ctx, leg, b) ==
  CASE ctx = "key" -> "any"
    [] Len(b) = 0 -> IF ctx \in {"ignored"} THEN "any" ELSE "short"
    [] b[1] = 255 /\ ctx \notin {"def", "ignored", "skip", "skiphead"} -> "short"   \* an error packet: the call fails in any case
    [] ctx = "greeting" -> Verdict(GreetingEnd(b))
    [] ctx = "auth" -> IF b[1] = 254 THEN (IF Len(b) < 5 THEN "short" ELSE "any") ELSE IF b[1] = 1 THEN (IF Len(b) < 2 THEN "short" ELSE "any") ELSE "any"
    [] ctx = "authend" -> "any"
    [] ctx = "answer" -> IF b[1] = 0 THEN Verdict(OkEnd(b)) ELSE "any"
    [] ctx = "head" -> IF b[1] = 0 THEN Verdict(OkEnd(b)) ELSE Verdict(LenSkip(b, 0))
    [] ctx = "skiphead" -> IF b[1] \in {251, 255} THEN "any" ELSE IF b[1] = 0 THEN Verdict(OkEnd(b)) ELSE Verdict(LenSkip(b, 0))
    [] ctx = "def" -> Verdict(DefEndAt(b, 0, 6))
    [] ctx = "prep" -> IF b[1] = 0 /\ Len(b) < 12 THEN "short" ELSE "any"
    [] ctx = "defend" -> IF b[1] # 254 THEN "any" ELSE "any"
    [] ctx = "ignored" -> "any"
    [] ctx = "skip" -> IF b[1] = 254 THEN Verdict(EofEnd(b, leg)) ELSE "any"
    [] ctx \in {"xrow", "brow", "srow"} ->
         IF b[1] = 254 /\ (~leg \/ Len(b) < 8) THEN Verdict(EofEnd(b, leg)) ELSE Verdict(RowEnd(ctx, b))

(******************************* damage *******************************)
\* texts that no column of a server has
Rep(x, n) == [i \in 1..n |-> x]
Texts == {<<>>, <<0>>, <<255>>, <<195>>, <<237, 160, 128>>} \cup {Str(x) : x \in {"-", "+", "--1", "+1", "-0", "1-", " 1", "1 ", "0x10", "1.", ".5", "1e5", "1e400", "-1e400", "nan", "NaN", "inf", "-inf", "infinity", "e", "1e", "256", "-129", "65536", "4294967296",
   "18446744073709551616", "-9223372036854775809", "99999999999999999999999999", "0000-00-00", "9999-99-99", "2024-1-1", "2024-01", "2024-01-01x", "20240101", "2024/01/01", "-024-01-01", "2024--1-01", "+024-01-01", "2024-+1-01", "2024-01-01 ", "2024-01-01 0", "2024-01-01 00:00:0",
   "2024-01-01 00:00:00.", "2024-01-01 00:00:00.1234567", "2024-01-01 00:00:00.-1", "2024-01-01 00:00:00.+1", "2024-01-01T00:00:00", "2024-01-01 99:99:99", "2024-01-01 -1:00:00", "0000-00-00 00:00:00", "24:00:00", "1:2:3", "::", ":", "00:", "00:00", "00:00:", "00:00:0", "00:00:000", ":00:00", "-:00:00", "--01:00:00",
   "4294967295:00:00", "4294967296:00:00", "99999999999999999999:00:00", "00:60:60", "00:99:99", "00:-1:00", "00:00:-1", "00:00:00.", "00:00:00.0000001", "00:00:00.999999", "00:00:00.9999999", "00:00:00.x", "00:00:00,5", "-00:00:00", "-", "-1"}}
   \cup {Rep(57, 19), Rep(45, 19), Rep(58, 19), Rep(255, 19), Rep(128, 10), Str("2024-01-01 ") \o Rep(255, 8), Str("00:00:00.") \o Rep(195, 3), <<195, 164>> \o Str("24-01-01"), Rep(49, 250), Rep(49, 300), Rep(48, 70000)}
TextCell(cs, i, x) == Cat([j \in 1..Len(cs) |-> LenStr(IF j = i THEN x ELSE cs[j].x)])
\* temporal values of any length
BinCells == {<<n>> \o Rep(x, n) : n \in 0..20, x \in {0, 1, 127, 255}} \cup {<<255>> \o Rep(1, 255)}
BinCellRow(cs, i, x) == <<0>> \o Zeros((Len(cs) + 9) \div 8) \o Cat([j \in 1..Len(cs) |-> IF j = i THEN x ELSE cs[j].b])
\* nothing follows the cell, as if its column were the last
BinCellLast(cs, i, x) == <<0>> \o Zeros((Len(cs) + 9) \div 8) \o Cat([j \in 1..i |-> IF j = i THEN x ELSE cs[j].b])
TextCellLast(cs, i, x) == Cat([j \in 1..i |-> LenStr(IF j = i THEN x ELSE cs[j].x)])
Bodies == <<<<>>, <<0>>, <<254>>, <<251>>, <<255>>, <<1>>, <<2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<250>>, <<252>>, OkP, EofBody(TRUE, 2, 0), EofBody(FALSE, 2, 0), EofBody(FALSE, 10, 0), OkBody(0, 0, 10, 0, <<>>),
            ErrBody(1, Str("HY000"), <<>>), <<255, 1>>, <<255, 1, 0>>, <<255, 1, 0, 35, 1, 2>>, <<255, 255, 255, 1, 2, 3>>, <<255, 1, 0, 35>> \o Str("HY00") \o <<200>>, <<251>> \o Str("/etc/passwd"),
            Def(253, 0, "x"), Def(6, 0, "n"), Def(255, 65535, "g"), Def(14, 0, "y"), Def(17, 0, "y"), <<252, 255, 255>>, <<253, 255, 255, 255>>, <<254, 255, 255, 255, 255, 255, 255, 255, 255>>,
            <<254, 255, 255, 255, 255, 255, 255, 255, 127>>, <<0, 255, 255, 255, 255, 255, 255, 255, 255, 0, 0, 0>>, Greeting("caching_sha2_password", FALSE), <<254>> \o Str("mysql_native_password") \o <<0>>,
            <<254>> \o Str("caching_sha2_password") \o <<0>>, <<254>> \o Str("mysql_clear_password") \o <<0, 0>>, Zeros(200), [i \in 1..300 |-> 255], [i \in 1..300 |-> 254]>>
Explosions == <<<<251>>, <<252, 255, 255>>, <<253, 255, 255, 255>>, <<254, 255, 255, 255, 255, 255, 255, 255, 255>>, <<254, 255, 255, 255, 255, 255, 255, 255, 127>>, <<254, 0, 0, 0, 0, 0, 0, 0, 128>>, <<254, 246, 255, 255, 255, 255, 255, 255, 255>>,
                <<254, 0, 0, 0, 128, 0, 0, 0, 0>>>>
Cut(b, i, j) == SubSeq(b, 1, i) \o SubSeq(b, j, Len(b))
\* the damage of kind m at position i with argument x
Damage(b, m, i, x) ==
  CASE m = "trunc" -> SubSeq(b, 1, i - 1)
    [] m = "set" -> [b EXCEPT ![i] = x]
    [] m = "inc" -> [b EXCEPT ![i] = (@ + x + 256) % 256]
    [] m = "explode" -> SubSeq(b, 1, i - 1) \o Explosions[x] \o SubSeq(b, i + 1, Len(b))
    [] m = "del" -> Cut(b, i - 1, i + 1)
    [] m = "dup" -> SubSeq(b, 1, i) \o SubSeq(b, i, Len(b))
    [] m = "tail" -> b \o Bodies[x]
    [] m = "replace" -> Bodies[x]
ArgsOf(m) == CASE m = "trunc" -> {0} [] m = "set" -> Vals [] m = "inc" -> {1, -1, 128} [] m = "explode" -> 1..Len(Explosions) [] m \in {"del", "dup"} -> {0}
               [] m = "tail" -> {7, 13, 38} [] m = "replace" -> 1..Len(Bodies)
PosOf(m, b) == IF m \in {"tail", "replace"} THEN {1} ELSE 1..Len(b)
\* damage of a frame: its header states another length
HeaderLens(n) == {0, n - 1, n + 1, n + 200, 65536, 16777214, 16777215} \ {-1, n}

PlainOf(D) == [i \in 1..Len(D.pk) |-> D.pk[i] @@ [len |-> Len(D.pk[i].b)]]
PlainF == [n \in Dialogues |-> PlainOf(DialogueF[n])]
Plain == PlainF[d]
Init == /\ d \in Dialogues /\ at = 0 /\ done = 0 /\ pk = Plain
\* packets that are alike in all dialogues are damaged in one
Fresh(k) == (pk[k].call = 1 => d \in {"text", "textleg", "auth1", "auth2", "auth3", "greeterr", "old"}) /\ (d = "bin" => pk[k].ctx \in {"prep", "ignored", "brow", "answer", "head"})
Hit(k, q) == /\ pk' = q /\ at' = IF at = 0 \/ k < at THEN k ELSE at
             /\ done' = done + 1 /\ UNCHANGED d
Set(k, b) == [pk EXCEPT ![k] = [@ EXCEPT !.b = b, !.len = Len(b)]]
Hurt(k) ==
  \/ \E m \in Muts \cap {"trunc", "set", "inc", "explode", "del", "dup", "tail", "replace"} : \E i \in PosOf(m, pk[k].b) : \E x \in ArgsOf(m) :
        /\ Len(pk[k].b) > 0 \/ m \in {"tail", "replace"}
        /\ LET b == Damage(pk[k].b, m, i, x) IN b # pk[k].b /\ Hit(k, Set(k, b))
  \/ "keys" \in Muts /\ pk[k].ctx = "key" /\ \E x \in KeyPems : Hit(k, Set(k, <<1>> \o x))
  \/ /\ "cells" \in Muts
     /\ \/ pk[k].ctx = "xrow" /\ pk[k].b[1] # 254 /\ \E i \in 1..NCols : \E x \in Texts : \E q \in {TextCell(Cols(NCols), i, x), TextCellLast(Cols(NCols), i, x)} : Hit(k, Set(k, q))
        \/ pk[k].ctx = "brow" /\ pk[k].b[1] # 254 /\ \E i \in {j \in 1..NCols : Columns[j].t \in {7, 10, 11, 12}} : \E x \in BinCells : \E q \in {BinCellRow(Cols(NCols), i, x), BinCellLast(Cols(NCols), i, x)} : Hit(k, Set(k, q))
  \/ /\ "frame" \in Muts
     /\ \/ \E n \in HeaderLens(pk[k].len) : Hit(k, [pk EXCEPT ![k].len = n])
        \/ \E s \in {1, 128, 255} : Hit(k, [pk EXCEPT ![k].seq = (@ + s) % 256])
        \* the server stops in the middle of the header
        \/ \E n \in {1, 2, 3} : Hit(k, [i \in 1..k |-> IF i < k THEN pk[i] ELSE pk[k] @@ [stop |-> n]])
  \/ /\ "drop" \in Muts
     /\ \/ Hit(k, SubSeq(pk, 1, k - 1)) 
        \/ Hit(k, SubSeq(pk, 1, k - 1) \o SubSeq(pk, k + 1, Len(pk)))
        \/ Hit(k, SubSeq(pk, 1, k) \o SubSeq(pk, k, Len(pk)))
        \* with numbers that fit
        \/ Hit(k, SubSeq(pk, 1, k - 1) \o [i \in 1..(Len(pk) - k) |-> [pk[k + i] EXCEPT !.seq = IF pk[k + i].call = pk[k].call THEN @ - 1 ELSE @]])
Next == /\ done < Depth
        /\ \E k \in {x \in 1..Len(pk) : Fresh(x)} : Hurt(k)
\* random damage
RNext == /\ done < Depth
         /\ \E k \in {RandomElement(1..Len(pk))} : \E m \in {RandomElement(Muts \cap {"trunc", "set", "inc", "explode", "del", "dup", "tail", "replace"})} :
              \E i \in {RandomElement(PosOf(m, pk[k].b) \cup {1})} : \E x \in {RandomElement(ArgsOf(m))} :
                IF (i > Len(pk[k].b) /\ m \notin {"tail", "replace"}) THEN Hit(k, pk) ELSE Hit(k, Set(k, Damage(pk[k].b, m, i, x)))
Spec == Init /\ [][Next]_<<d, pk, at, done>>
RSpec == Init /\ [][RNext]_<<d, pk, at, done>>

(******************************* demand *******************************)
\* what the first damaged packet is
Header == at <= Len(pk) /\ pk[at].len = Len(pk[at].b) /\ pk[at].seq = Plain[at].seq /\ "stop" \notin DOMAIN pk[at]
Must == IF at = 0 \/ at > Len(pk) \/ at > Len(Plain) THEN "any"
        ELSE IF ~Header \/ pk[at].call # Plain[at].call THEN "any"
        ELSE IF pk[at].ctx # Plain[at].ctx THEN "any"
        ELSE IF Read(pk[at].ctx, DialogueF[d].leg, pk[at].b) = "short" THEN "err" ELSE "any"
Scenario == LET x == DialogueF[d] IN
  [prog |-> x.prog, secure |-> x.secure, call |-> IF at = 0 THEN Len(x.prog) + 1 ELSE Plain[at].call, must |-> Must, anyway |-> FailsAnyway(d),
   opts |-> [user |-> "u", password |-> "secret", map |-> x.map, timeout |-> 1000, plugin |-> x.force],
   pk |-> [i \in 1..Len(pk) |-> IF "stop" \in DOMAIN pk[i] THEN [b |-> SubSeq(U24(pk[i].len), 1, pk[i].stop)]
                                ELSE [b |-> U24(pk[i].len) \o <<pk[i].seq>> \o pk[i].b]]]
Quiet == d = d
Emit == (done = Depth \/ done = 0) => PrintT("@@" \o ToJson(Scenario))

(* The decoder accepts every well-formed packet, and finds every cut short except where what is missing is optional. *)
Whole(i) == LET p == Plain[i] IN p.ctx # "key" => (p.b[1] = 255 \/ Read(p.ctx, DialogueF[d].leg, p.b) \in {"ok", "any"})
Optional(p) == CASE p.ctx = "greeting" -> GreetingEnd(p.b) [] p.ctx \in {"answer", "skiphead"} /\ p.b[1] = 0 -> OkEnd(p.b) [] p.ctx \in {"def"} -> Len(p.b)
                 [] p.ctx \in {"head", "skiphead"} /\ p.b[1] # 0 -> LenSkip(p.b, 0) [] p.ctx \in {"xrow", "brow", "srow"} -> Len(p.b) [] p.ctx = "prep" -> Len(p.b) [] OTHER -> 0
Cuts(i) == LET p == Plain[i] IN \A n \in 0..(Optional(p) - 1) : Read(p.ctx, DialogueF[d].leg, SubSeq(p.b, 1, n)) = "short"
Decoder == done = 0 => \A i \in 1..Len(Plain) : Whole(i) /\ Cuts(i)
=============================================================================
