-------------------------------- MODULE Wire --------------------------------
(* Bytes of the MySQL client/server protocol.  A byte string is a sequence of numbers. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

U8(n) == <<n % 256>>
U16(n) == <<n % 256, (n \div 256) % 256>>
U24(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256>>
U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
U64(n) == U32(n) \o <<0, 0, 0, 0>>
Zeros(n) == [i \in 1..n |-> 0]

\* length-encoded integer (for the numbers TLC has)
LenEnc(n) == IF n < 251 THEN <<n>>
             ELSE IF n < 65536 THEN <<252>> \o U16(n)
             ELSE IF n < 16777216 THEN <<253>> \o U24(n)
             ELSE <<254>> \o U64(n)
LenStr(b) == LenEnc(Len(b)) \o b

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch]
\* bytes of an ASCII text
Str(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)] + 31]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
\* decimal text of an integer
Dec(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

\* one frame
Frame(body, seq) == U24(Len(body)) \o <<seq % 256>> \o body

(* Packets *)
DeprecateEof == 16777216
OkBody(ar, li, st, w, msg) == <<0>> \o LenEnc(ar) \o LenEnc(li) \o U16(st) \o U16(w) \o (IF msg = <<>> THEN <<>> ELSE LenStr(msg))
ErrBody(code, state, msg) == <<255>> \o U16(code) \o <<35>> \o state \o msg
EofBody(legacy, st, w) == IF legacy THEN <<254>> \o U16(w) \o U16(st) ELSE <<254, 0, 0>> \o U16(st) \o U16(w)
DefBody(db, table, otable, name, oname, charset, length, type, flags, decimals) ==
  LenStr(Str("def")) \o LenStr(db) \o LenStr(table) \o LenStr(otable) \o LenStr(name) \o LenStr(oname)
    \o <<12>> \o U16(charset) \o U32(length) \o <<type>> \o U16(flags) \o <<decimals>> \o <<0, 0>>

\* the same events over a transport that takes this many ms for every packet read/written (how = "before"),
\* for the header of a packet and again for its contents ("within"), or that notifies the client of its progress too late ("late")
Delay(ms, how) == IF how = "late" THEN [k |-> "delay", ms |-> ms, late |-> 30] ELSE [k |-> "delay", ms |-> ms]
Slowly(evs, rd, wd, how) ==
  IF rd = 0 /\ wd = 0 THEN evs ELSE
  Cat([i \in 1..Len(evs) |->
     IF evs[i].k \in {"r", "rf"} /\ rd > 0
       THEN IF how = "within" /\ evs[i].k = "r" /\ Len(evs[i].b) > 4
              THEN <<Delay(rd, how), [evs[i] EXCEPT !.b = SubSeq(@, 1, 4)], Delay(rd, how), [evs[i] EXCEPT !.b = SubSeq(@, 5, Len(@))]>>
              ELSE <<Delay(rd, how), evs[i]>>
     ELSE IF evs[i].k = "w" /\ wd > 0 THEN <<Delay(wd, how), evs[i]>>
     ELSE <<evs[i]>>])

(* Server greeting and the answer of a client that uses the native plugin without a password *)
\* capabilities the server of the other specifications offers (bit numbers: 0 1 2 9 13 14 15 17 18 19 23)
CapsBase == <<7, 226, 142, 0>>
CapsModern == <<7, 226, 142, 1>>
\* what the client makes of them: PROTOCOL_41 TRANSACTIONS SECURE_CONNECTION PS_MULTI_RESULTS PLUGIN_AUTH
ClientCapsBase == <<0, 162, 12, 0>>
ClientCapsModern == <<0, 162, 12, 1>>
Nonce20 == [i \in 1..20 |-> 64 + i]
GreetingBody(version, id, caps, nonce, status, plugin) ==
  <<10>> \o version \o <<0>> \o U32(id) \o SubSeq(nonce, 1, 8) \o <<0>> \o <<caps[1], caps[2]>> \o <<45>> \o U16(status)
    \o <<caps[3], caps[4]>> \o <<21>> \o Zeros(10) \o SubSeq(nonce, 9, 20) \o <<0>> \o plugin \o <<0>>

CapsServer(legacy) == IF legacy THEN CapsBase ELSE CapsModern
CapsClient(legacy) == IF legacy THEN ClientCapsBase ELSE ClientCapsModern

\* events that connect
Prelude(legacy) == <<
  [k |-> "call", op |-> "connect"],
  [k |-> "r", b |-> Frame(GreetingBody(Str("8.0.36"), 77, CapsServer(legacy), Nonce20, 2, Str("mysql_native_password")), 0)],
  [k |-> "w", b |-> Frame(CapsClient(legacy) \o U32(4194304) \o <<45>> \o Zeros(23) \o Str("u") \o <<0>> \o <<0>>
                          \o Str("mysql_native_password") \o <<0>>, 1)],
  [k |-> "r", b |-> Frame(OkBody(0, 0, 2, 0, <<>>), 2)],
  [k |-> "ret", data |-> [id |-> 77]] >>
PreludeOpts == [user |-> "u", password |-> "", map |-> 4194304, timeout |-> 1000, plugin |-> "native"]
=============================================================================
