-------------------------------- MODULE Auth --------------------------------
(* The connection phase: greeting, response, authentication dialogue, settings.

   The server is arbitrary (it may be malicious): at every point it sends any message of a catalogue.
   The client follows the protocol.  Passwords appear in what the client sends only inside terms:
     native(nonce), sha2(nonce)  salted proofs        rsa(key, nonce)  encrypted
     plain                       the password itself
   `sent` collects the terms; the invariants are about it and about how the dialogue ends.
   The events (with the terms) are replayed on the real client; the harness computes the terms with its
   own formulas and decrypts what was encrypted. *)
EXTENDS Wire, FiniteSets, Json

CONSTANTS Fam, Plugins, MaxSwitch, SlowR, SlowW, SlowHow, Wait

VARIABLES o, ph, cl, seq, hist, sent, log, res
vars == <<o, ph, cl, seq, hist, sent, log, res>>

(********************************** terms **********************************)
Nonce(k) == CASE k = 1 -> [i \in 1..20 |-> 64 + i]
              [] k = 2 -> [i \in 1..20 |-> 150 - i]
              [] k = 3 -> [i \in 1..8 |-> 200 + i]
              [] k = 4 -> <<>>
              \* zeros inside
              [] k = 5 -> [i \in 1..20 |-> IF i \in {1, 7, 19} THEN 0 ELSE i]
              [] k = 6 -> [i \in 1..40 |-> i + 1]
              [] k = 7 -> [i \in 1..120 |-> 1 + ((37 * i) % 251)]
\* what follows the nonce in a switch request
SwitchTail(k) == IF k \in {3, 4} THEN <<>> ELSE <<0>>
TNative(pw, nonce) == <<[sym |-> "native", nonce |-> nonce, pw |-> pw]>>
TSha2(pw, nonce) == <<[sym |-> "sha2", nonce |-> nonce, pw |-> pw]>>
TRsa(pw, nonce, key) == <<[sym |-> "rsa", nonce |-> nonce, pw |-> pw, key |-> key]>>
KeyLen(key) == CASE key = "k512" -> 64 [] key \in {"k1023", "k1024", "k1024b"} -> 128 [] key \in {"k1025", "k1030", "k1032"} -> 129 [] key = "k2048" -> 256
\* RFC 8017: a message of at most k - 2 hLen - 2 octets
Fits(pw, key) == Len(pw) + 1 <= KeyLen(key) - 42

PluginName(p) == CASE p = "native" -> Str("mysql_native_password") [] p = "sha2" -> Str("caching_sha2_password") [] p = "clear" -> Str("mysql_clear_password")
                   [] p = "old" -> Str("mysql_old_password") [] p = "none" -> <<>> [] p = "upper" -> Str("MYSQL_NATIVE_PASSWORD") [] p = "prefix" -> Str("mysql_native_passwor")
\* what this build of the client knows
Known == Plugins

(******************************** capabilities ********************************)
\* as sets of bit numbers
Bit == [connectdb |-> 3, p41 |-> 9, trans |-> 13, secure |-> 15, psmulti |-> 18, pluginauth |-> 19, lenenc |-> 21, deof |-> 24]
Implemented == {9, 13, 15, 18, 19, 21, 24}
CapBytes(S) == [i \in 1..4 |-> FoldLeft(LAMBDA a, b : a + (IF 8 * (i - 1) + b \in S THEN 2^b ELSE 0), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)]
Offered == o.caps
\* what both can, and what describes the fields the client sends
Negotiated == Offered \cap (Implemented \cup (IF o.db # "-" THEN {3} ELSE {}))
Stated == (Negotiated \cup {19} \cup (IF o.db # "-" THEN {3} ELSE {})) \ (IF o.db = "-" THEN {3} ELSE {})
P41 == 9 \in Negotiated

(********************************** packets **********************************)
\* data: length of the second part of the nonce as the server states it
GreetingB == LET n == Nonce(o.nonce)
                 first == [i \in 1..8 |-> IF i <= Len(n) THEN n[i] ELSE 0]
                 rest == (IF Len(n) > 8 THEN SubSeq(n, 9, Len(n)) ELSE <<>>) \o <<0>>
                 caps == CapBytes(Offered)
             IN <<10>> \o o.version.s \o <<0>> \o o.id \o first \o <<0>> \o <<caps[1], caps[2]>> \o <<o.coll>> \o U16(o.status)
                  \o <<caps[3], caps[4]>> \o <<IF 19 \in Offered THEN 8 + Len(rest) ELSE 0>> \o Zeros(10)
                  \o (IF 15 \in Offered THEN rest \o Zeros(IF Len(rest) < 13 THEN 13 - Len(rest) ELSE 0) ELSE <<>>)
                  \o (IF 19 \in Offered THEN PluginName(o.gp) \o (IF o.gnul THEN <<0>> ELSE <<>>) ELSE <<>>)
\* the nonce the client takes from it: 20 bytes
GNonce == LET n == Nonce(o.nonce) IN [i \in 1..20 |-> IF i <= Len(n) /\ (i <= 8 \/ 15 \in Offered) THEN n[i] ELSE 0]

\* what the server says about it: any text, any code
Vary == (o.id[1] + o.status + o.nonce + Len(o.user) + seq) % 6
ErrCode == <<1045, 1040, 65535, 0, 1045, 255>>[Vary + 1]
ErrText == <<Str("denied"), <<>>, Str("x"), [i \in 1..300 |-> 97 + (i % 26)], <<195, 164, 226, 130, 172>>, Str("#x")>>[Vary + 1]
ErrB == IF P41 THEN ErrBody(ErrCode, Str("28000"), ErrText) ELSE <<255>> \o U16(ErrCode) \o ErrText
RErr == IF P41 THEN [err |-> "server", code |-> ErrCode, state |-> Str("28000"), msg |-> ErrText]
        ELSE [err |-> "server", code |-> ErrCode, msg |-> ErrText]
\* before anything is negotiated: with or without a state
Stateless == (o.nonce + o.status) % 2 = 0 /\ Vary # 5
Err0B == IF Stateless THEN <<255>> \o U16(ErrCode) \o ErrText ELSE ErrBody(ErrCode, Str("08004"), ErrText)
RErr0 == [err |-> "server", code |-> ErrCode, msg |-> ErrText]
OkB0 == IF Vary % 2 = 1 THEN OkBody(0, 0, 2, 0, <<>>) ELSE OkBody(300, 70000, 2 + 16384, 5, Str("welcome"))
RBad == [err |-> "local"]

(*********************************** client ***********************************)
Proof(plugin, nonce) ==
  CASE plugin = "clear" -> o.pw \o <<0>>
    [] o.pw = <<>> -> <<>>
    [] plugin = "native" -> TNative(o.pw, nonce)
    [] plugin = "sha2" -> TSha2(o.pw, nonce)
ProofLen(plugin) == CASE plugin = "clear" -> Len(o.pw) + 1 [] o.pw = <<>> -> 0 [] plugin = "native" -> 20 [] plugin = "sha2" -> 32
ProofTerm(plugin, nonce) == IF plugin = "clear" THEN {[t |-> "plain", why |-> "clear"]} ELSE IF o.pw = <<>> THEN {} ELSE {[t |-> plugin, nonce |-> nonce]}
\* the client refuses the plugin
Refuses(plugin) == plugin \notin Known \/ (o.force # "none" /\ plugin # o.force) \/ (plugin = "clear" /\ ~o.clear)
RefusesFirst(plugin) == plugin \notin Known \/ (plugin = "clear" /\ ~o.clear)
\* a response cannot state these options
Unsayable(plugin) == \/ 0 \in ToSet(o.user) \/ 0 \in ToSet(o.dbb)
                     \/ 15 \in Negotiated /\ 21 \notin Negotiated /\ ProofLen(plugin) > 255

\* four bytes (of o.bmap, if the limit is larger than the numbers TLC has)
Map4 == IF o.bmap # <<>> THEN (IF SubSeq(o.bmap, 5, 8) = Zeros(4) THEN SubSeq(o.bmap, 1, 4) ELSE <<255, 255, 255, 255>>)
        ELSE U32(IF o.map < 0 THEN 4194304 ELSE o.map)
ResponseB(plugin) ==
  CapBytes(Stated) \o Map4 \o <<IF o.version.new THEN 45 ELSE 33>> \o Zeros(23) \o o.user \o <<0>>
    \o (IF 21 \in Negotiated THEN LenEnc(ProofLen(plugin)) \o Proof(plugin, GNonce)
        ELSE IF 15 \in Negotiated THEN <<ProofLen(plugin)>> \o Proof(plugin, GNonce) ELSE (IF plugin = "clear" THEN o.pw ELSE Proof(plugin, GNonce)) \o <<0>>)
    \o (IF o.db = "-" THEN <<>> ELSE o.dbb \o <<0>>) \o PluginName(plugin) \o <<0>>
\* frame with terms of known length
TFrame(body, len, s) == U24(len) \o <<s % 256>> \o body
ResponseLen(plugin) == 4 + 4 + 1 + 23 + Len(o.user) + 1 + (IF 21 \in Negotiated THEN Len(LenEnc(ProofLen(plugin))) + ProofLen(plugin) ELSE IF 15 \in Negotiated THEN 1 + ProofLen(plugin) ELSE (IF plugin = "clear" THEN Len(o.pw) ELSE ProofLen(plugin)) + 1)
                       + (IF o.db = "-" THEN 0 ELSE Len(o.dbb) + 1) + Len(PluginName(plugin)) + 1

Rx(body) == [k |-> "r", b |-> Frame(body, seq)]
Tx(body, len, s) == [k |-> "w", b |-> TFrame(body, len, s)]
Ret(r) == [k |-> "ret"] @@ r
End(r, evs) == /\ ph' = "done" /\ res' = [st |-> "error", r |-> r] /\ hist' = hist \o evs \o <<Ret(r)>>

\* the login was accepted

\* the packet limit: what the server says (name and row), what the client makes of it
SMaps == <<[v |-> 67108864, fails |-> "-", name |-> "@@max_allowed_packet", row |-> LenStr(Str("67108864"))],
           [v |-> 1024, fails |-> "-", name |-> "@@max_allowed_packet", row |-> LenStr(Str("1024"))],
           [v |-> 1073741824, fails |-> "-", name |-> "@@max_allowed_packet", row |-> LenStr(Str("1073741824"))],
           [v |-> <<1, 0, 0, 0, 2, 0, 0, 0>>, fails |-> "-", name |-> "@@max_allowed_packet", row |-> LenStr(Str("8589934593"))],
           [v |-> 0, fails |-> "server", name |-> "-", row |-> <<>>],
           [v |-> 0, fails |-> "local", name |-> "@@max_allowed_packet", row |-> <<251>>],
           [v |-> 0, fails |-> "local", name |-> "@@max_allowed_packet", row |-> LenStr(Str("lots"))]>>
SM == SMaps[o.smap]
Deof == 24 \in Negotiated
Seqd(bodies) == [i \in 1..Len(bodies) |-> [k |-> "r", b |-> Frame(bodies[i], i)]]
SettingsRest == <<EofBody(~Deof, 2, 0)>>
Settings == IF o.map >= 0 THEN <<>> ELSE
  <<[k |-> "w", b |-> Frame(<<3>> \o Str("select @@max_allowed_packet"), 0)]>>
    \o Seqd(IF SM.name = "-" THEN <<IF P41 THEN ErrBody(1142, Str("42000"), Str("no")) ELSE <<255>> \o U16(1142) \o Str("no")>>
            ELSE <<<<1>>, DefBody(<<>>, <<>>, <<>>, Str(SM.name), <<>>, 63, 21, 8, 160, 0)>> \o (IF Deof THEN <<>> ELSE <<EofBody(TRUE, 2, 0)>>) \o <<SM.row>>)
\* one more command: it has to wait for the rest of the settings
OkB == <<0>> \o LenEnc(7) \o LenEnc(300) \o (IF P41 THEN U16(2) \o U16(3) ELSE IF 13 \in Negotiated THEN U16(2) ELSE <<>>)
\* (the client knows no other protocol than that of 4.1 for commands)
After == IF ~P41 THEN <<>> ELSE <<[k |-> "call", op |-> "exec", sql |-> "z"]>> \o (IF o.map >= 0 THEN <<>> ELSE <<[k |-> "r", b |-> Frame(SettingsRest[1], 4 + (IF Deof THEN 0 ELSE 1))]>>)
         \o <<[k |-> "w", b |-> Frame(<<3>> \o Str("z"), 0)], [k |-> "r", b |-> Frame(OkB, 1)],
              [k |-> "ret", ok |-> [ar |-> 7, li |-> 300]]>>
DataOf == [data |-> [id |-> o.id, map |-> IF o.bmap # <<>> THEN o.bmap ELSE IF o.map < 0 THEN SM.v ELSE o.map, caps |-> CapBytes(Negotiated), mariadb |-> o.version.maria, version |-> o.version.v,
                     plugin |-> cl.plugin]]
Accept(evs) == IF o.map < 0 /\ SM.fails # "-" THEN End(IF SM.fails = "server" THEN [err |-> "server", code |-> 1142] ELSE RBad, evs \o Settings)
               ELSE /\ ph' = "done" /\ res' = [st |-> "connected", r |-> [none |-> 0]] /\ hist' = hist \o evs \o Settings \o <<Ret(DataOf)>> \o After

\* the transport or the numbering fails, in any phase
Timed == [err |-> "timeout", ms |-> Wait, lax |-> TRUE]
Trouble(m) ==
  /\ CASE m.k = "stall" -> End(Timed, <<[k |-> "stall"]>>)
       [] m.k = "part" -> End(Timed, <<[k |-> "r", b |-> SubSeq(Frame(OkBody(0, 0, 2, 0, <<>>), seq), 1, m.nonce)], [k |-> "stall"]>>)
       [] m.k = "eof" -> End([err |-> "local", lax |-> TRUE], <<[k |-> "eof"]>>)
       [] m.k = "reset" -> End([err |-> "io", lax |-> TRUE], <<[k |-> "reset"]>>)
       [] m.k = "badseq" -> End([err |-> "oos"], <<[k |-> "r", b |-> Frame(OkBody(0, 0, 2, 0, <<>>), seq + m.nonce)]>>)
       \* the trouble came while the client was still writing its last packet, after m.nonce bytes of it
       [] m.k \in {"wstall", "wreset"} ->
            /\ ph' = "done" /\ res' = [st |-> "error", r |-> IF m.k = "wstall" THEN Timed ELSE [err |-> "io", lax |-> TRUE]]
            /\ hist' = SubSeq(hist, 1, Len(hist) - 1) \o (IF m.nonce = 0 THEN <<>> ELSE <<[k |-> "w", b |-> SubSeq(hist[Len(hist)].b, 1, m.nonce)]>>)
                        \o <<[k |-> IF m.k = "wstall" THEN "stall" ELSE "reset"], Ret(res'.r)>>
       [] m.k = "fstall" -> End(Timed, <<[k |-> "fstall"]>>)
  /\ UNCHANGED <<cl, seq, sent>>
WTroubles == {"wstall", "wreset", "fstall"}
Troubles == {"stall", "part", "eof", "reset", "badseq"} \cup WTroubles

Greet(m) ==
  /\ log' = Append(log, m)
  /\ UNCHANGED o
  /\ CASE m.k \in Troubles -> Trouble(m)
       [] m.k = "greeting" ->
            LET plugin == IF 19 \notin Offered THEN "native" ELSE o.gp
                first == IF o.force # "none" THEN o.force ELSE plugin
            IN IF plugin \notin Known \/ RefusesFirst(first) \/ Unsayable(first) THEN End(RBad, <<Rx(GreetingB)>>) /\ UNCHANGED <<cl, seq, sent>>
               ELSE /\ cl' = [plugin |-> plugin, use |-> first, nonce |-> GNonce, switched |-> 0, key |-> o.key]
                    /\ sent' = sent \cup ProofTerm(first, GNonce)
                    /\ hist' = hist \o <<Rx(GreetingB), Tx(ResponseB(first), ResponseLen(first), 1)>>
                    /\ seq' = 2 /\ ph' = "auth" /\ UNCHANGED res
       [] m.k = "err" -> End(RErr0, <<Rx(Err0B)>>) /\ UNCHANGED <<cl, seq, sent>>
       [] m.k = "empty" -> End(RBad, <<Rx(<<>>)>>) /\ UNCHANGED <<cl, seq, sent>>
       [] m.k = "junk" -> End(RBad, <<Rx(<<9, 1, 2, 3>>)>>) /\ UNCHANGED <<cl, seq, sent>>

Fatal(body, r) == End(r, <<Rx(body)>>) /\ UNCHANGED <<cl, seq, sent>>
Auth(m) ==
  /\ log' = Append(log, m)
  /\ UNCHANGED o
  /\ CASE m.k \in Troubles -> Trouble(m)
       [] m.k = "ok" -> Accept(<<Rx(OkB0)>>) /\ UNCHANGED <<cl, seq, sent>>
       [] m.k = "err" -> Fatal(ErrB, RErr)
       [] m.k = "empty" -> Fatal(<<>>, RBad)
       [] m.k = "junk" -> Fatal(<<5, 1, 2>>, RBad)
       [] m.k = "oldswitch" -> Fatal(<<254>>, RBad)
       [] m.k = "switch" ->
            LET n == Nonce(m.nonce)
                body == <<254>> \o PluginName(m.plugin) \o <<0>> \o n \o SwitchTail(m.nonce)
            IN IF cl.switched = 1 \/ Refuses(m.plugin) THEN Fatal(body, RBad)
               ELSE /\ cl' = [cl EXCEPT !.plugin = m.plugin, !.use = m.plugin, !.nonce = n, !.switched = 1]
                    /\ sent' = sent \cup ProofTerm(m.plugin, n)
                    /\ hist' = hist \o <<Rx(body), Tx(Proof(m.plugin, n), ProofLen(m.plugin), seq + 1)>>
                    /\ seq' = seq + 2 /\ UNCHANGED <<ph, res>>
       [] m.k = "more" ->
            LET body == <<1>> \o m.b IN
            IF cl.use # "sha2" THEN Fatal(body, RBad)
            ELSE IF m.b # <<>> /\ m.b[1] = 3 THEN
              /\ hist' = Append(hist, Rx(body)) /\ seq' = seq + 1 /\ ph' = "fast" /\ UNCHANGED <<cl, sent, res>>
            ELSE IF m.b # <<>> /\ m.b[1] = 4 /\ cl.nonce # <<>> THEN
              IF o.secure THEN
                /\ hist' = hist \o <<Rx(body), Tx(o.pw \o <<0>>, Len(o.pw) + 1, seq + 1)>>
                /\ sent' = sent \cup {[t |-> "plain", why |-> "full"]}
                /\ seq' = seq + 2 /\ ph' = "final" /\ UNCHANGED <<cl, res>>
              ELSE IF cl.key # "-" THEN
                IF ~Fits(o.pw, cl.key) THEN Fatal(body, RBad)
                ELSE /\ hist' = hist \o <<Rx(body), Tx(TRsa(o.pw, cl.nonce, cl.key), KeyLen(cl.key), seq + 1)>>
                     /\ sent' = sent \cup {[t |-> "rsa", key |-> cl.key, nonce |-> cl.nonce]}
                     /\ seq' = seq + 2 /\ ph' = "final" /\ UNCHANGED <<cl, res>>
              ELSE /\ hist' = hist \o <<Rx(body), Tx(<<2>>, 1, seq + 1)>>
                   /\ seq' = seq + 2 /\ ph' = "key" /\ UNCHANGED <<cl, sent, res>>
            ELSE Fatal(body, RBad)

PemText(m) == <<[sym |-> "pem", key |-> m.key, form |-> m.form]>>
Key(m) ==
  /\ log' = Append(log, m)
  /\ UNCHANGED o
  /\ CASE m.k \in Troubles -> Trouble(m)
       [] m.k = "ok" -> Fatal(OkBody(0, 0, 2, 0, <<>>), RBad)
       [] m.k = "err" -> Fatal(ErrB, RErr)
       [] m.k = "empty" -> Fatal(<<>>, RBad)
       [] m.k = "junk" -> Fatal(<<5, 1, 2>>, RBad)
       [] m.k = "switch" -> Fatal(<<254>> \o PluginName(m.plugin) \o <<0>> \o Nonce(m.nonce) \o <<0>>, RBad)
       [] m.k = "badkey" -> Fatal(<<1>> \o m.b, RBad)
       [] m.k = "key" ->
            LET rx == [k |-> "rf", s |-> seq % 256, b |-> <<1>> \o PemText(m)] IN
            IF ~Fits(o.pw, m.key) THEN End(RBad, <<rx>>) /\ UNCHANGED <<cl, seq, sent>>
            ELSE /\ hist' = hist \o <<rx, Tx(TRsa(o.pw, cl.nonce, m.key), KeyLen(m.key), seq + 1)>>
                 /\ sent' = sent \cup {[t |-> "rsa", key |-> m.key, nonce |-> cl.nonce]}
                 /\ cl' = [cl EXCEPT !.key = m.key]
                 /\ seq' = seq + 2 /\ ph' = "final" /\ UNCHANGED res
Final(m) ==
  /\ log' = Append(log, m)
  /\ UNCHANGED o
  /\ CASE m.k \in Troubles -> Trouble(m)
       [] m.k = "ok" -> Accept(<<Rx(OkB0)>>) /\ UNCHANGED <<cl, seq, sent>>
       [] m.k = "err" -> Fatal(ErrB, RErr)
       [] m.k = "empty" -> Fatal(<<>>, RBad)
       [] m.k = "junk" -> Fatal(<<5, 1, 2>>, RBad)
       [] m.k = "more" -> Fatal(<<1>> \o m.b, RBad)
       [] m.k = "switch" -> Fatal(<<254>> \o PluginName(m.plugin) \o <<0>> \o Nonce(m.nonce) \o <<0>>, RBad)

(********************************* catalogues *********************************)
M(k) == [k |-> k, plugin |-> "-", nonce |-> 0, b |-> <<>>, key |-> "-", form |-> "-"]
Simple == {M("ok"), M("err"), M("empty"), M("junk")}
WTroubleMsgs == {[M(k) EXCEPT !.nonce = i] : k \in {"wstall", "wreset"}, i \in IF SlowW > 0 THEN {0} ELSE {0, 3}} \cup {M("fstall")}
ReadTroubleMsgs == {M("stall"), M("eof"), M("reset")} \cup (IF SlowR > 0 THEN {} ELSE {[M("part") EXCEPT !.nonce = i] : i \in {2, 4, 6}}) \cup {[M("badseq") EXCEPT !.nonce = i] : i \in {1, 255, 128}}
TroubleMsgs == ReadTroubleMsgs \cup WTroubleMsgs
Switches == {[M("switch") EXCEPT !.plugin = p, !.nonce = n] : p \in {"native", "sha2", "clear"}, n \in MaxSwitch} \cup {[M("switch") EXCEPT !.plugin = p, !.nonce = 2] : p \in {"old", "none", "upper", "prefix"}}
Mores == {[M("more") EXCEPT !.b = b] : b \in {<<3>>, <<4>>, <<>>, <<0>>, <<255>>}}
KeyOf(k, f) == [M("key") EXCEPT !.key = k, !.form = f]
AuthMsgs == IF Fam = "hand" THEN {M("ok"), M("err")}
            ELSE IF Fam = "long" THEN {[M("more") EXCEPT !.b = <<4>>]} \cup {[M("switch") EXCEPT !.plugin = p, !.nonce = n] : p \in {"sha2", "native"}, n \in {3, 6, 7}} \cup {M("ok")}
            ELSE Simple \cup Switches \cup Mores \cup {M("oldswitch")} \cup TroubleMsgs
KeyMsgs == IF Fam = "long" THEN {KeyOf(o.skey, f) : f \in {"pkcs8", "pkcs1", "pkcs8-crlf", "pkcs1-oneline"}}
           ELSE Simple \cup TroubleMsgs \cup {[M("switch") EXCEPT !.plugin = "clear", !.nonce = 2]} \cup {[M("badkey") EXCEPT !.b = b] : b \in {<<>>, Str("-----BEGIN PUBLIC KEY-----"), Zeros(60)}}
             \cup {KeyOf("k1024", "pkcs8"), KeyOf("k1024b", "pkcs1")}
FinalMsgs == IF Fam = "long" THEN {M("ok")} ELSE Simple \cup TroubleMsgs \cup {[M("switch") EXCEPT !.plugin = "clear", !.nonce = 2], [M("more") EXCEPT !.b = <<4>>], [M("more") EXCEPT !.b = <<3>>]}
GreetMsgs == IF Fam = "long" THEN {M("greeting")} ELSE IF Fam = "hand" THEN {M("greeting"), M("err")} ELSE {M("greeting"), M("err"), M("empty"), M("junk")} \cup ReadTroubleMsgs

(********************************* options *********************************)
V80 == [s |-> Str("8.0.36"), v |-> <<8, 0, 36>>, maria |-> FALSE, new |-> TRUE]
Versions == <<V80,
  [s |-> Str("5.7.44-log"), v |-> <<5, 7, 44>>, maria |-> FALSE, new |-> TRUE],
  [s |-> Str("5.5.3"), v |-> <<5, 5, 3>>, maria |-> FALSE, new |-> TRUE],
  [s |-> Str("5.5.2"), v |-> <<5, 5, 2>>, maria |-> FALSE, new |-> FALSE],
  [s |-> Str("5.1.73-community"), v |-> <<5, 1, 73>>, maria |-> FALSE, new |-> FALSE],
  [s |-> Str("4.1.22"), v |-> <<4, 1, 22>>, maria |-> FALSE, new |-> FALSE],
  [s |-> Str("10.6.12-MariaDB"), v |-> <<10, 6, 12>>, maria |-> TRUE, new |-> TRUE],
  [s |-> Str("5.5.5-10.11.6-MariaDB-1:10.11.6+maria~ubu2204"), v |-> <<10, 11, 6>>, maria |-> TRUE, new |-> TRUE],
  [s |-> Str("11.4.2-MariaDB-ubu2404"), v |-> <<11, 4, 2>>, maria |-> TRUE, new |-> TRUE],
  [s |-> Str("5.5.5-m3"), v |-> <<5, 5, 5>>, maria |-> FALSE, new |-> TRUE],
  [s |-> Str("65535.65535.65535"), v |-> <<65535, 65535, 65535>>, maria |-> FALSE, new |-> TRUE],
  [s |-> Str("garbage"), v |-> <<0, 0, 0>>, maria |-> FALSE, new |-> FALSE],
  [s |-> <<>>, v |-> <<0, 0, 0>>, maria |-> FALSE, new |-> FALSE]>>


Default == [force |-> "none", clear |-> FALSE, pw |-> Str("secret"), key |-> "-", skey |-> "k1024", secure |-> FALSE, user |-> Str("u"), db |-> "-", dbb |-> <<>>, map |-> 4194304, bmap |-> <<>>, smap |-> 1,
            gp |-> IF "sha2" \in Known THEN "sha2" ELSE "native", gnul |-> TRUE, caps |-> {0, 1, 2, 3, 9, 13, 14, 15, 17, 18, 19, 23, 24}, nonce |-> 1, id |-> <<77, 0, 0, 0>>, coll |-> 45, status |-> 2, version |-> V80]
NoPlugin == Default.caps \ {19}
Wide == {3, 9, 13, 15, 18, 19, 21, 24}
Opts ==
  CASE Fam = "dialogue" ->
         {[Default EXCEPT !.force = f, !.clear = c, !.pw = pw, !.key = k, !.secure = s, !.gp = p] : f \in {"none"} \cup Known, c \in BOOLEAN, pw \in {<<>>, Str("secret")},
            k \in IF "sha2" \in Known THEN {"-", "k1032"} ELSE {"-"}, s \in BOOLEAN, p \in {"native", "sha2", "clear"}}
         \cup {[Default EXCEPT !.force = f, !.caps = NoPlugin, !.clear = c] : f \in {"none"} \cup Known, c \in BOOLEAN}
         \cup {[Default EXCEPT !.force = f, !.gp = p] : f \in {"none", "native"}, p \in {"old", "none", "upper", "prefix"}}
    [] Fam = "long" ->
         {[Default EXCEPT !.pw = [i \in 1..l |-> 33 + (i % 90)], !.skey = k] : l \in {20, 21, 22, 40, 255}, k \in {"k512"}}
         \cup {[Default EXCEPT !.pw = [i \in 1..l |-> 33 + (i % 90)], !.skey = k] : l \in {0, 1, 83, 84, 85, 86, 87}, k \in {"k1023", "k1024", "k1025", "k1030", "k1032"}}
         \cup {[Default EXCEPT !.pw = [i \in 1..l |-> 33 + (i % 90)], !.skey = k] : l \in {211, 212, 213, 214}, k \in {"k2048"}}
         \cup {[Default EXCEPT !.nonce = n] : n \in 1..7}
    [] Fam = "hand" ->
         {[Default EXCEPT !.version = Versions[i], !.coll = c, !.gp = "native"] : i \in 1..Len(Versions), c \in {33, 255}}
         \cup {[Default EXCEPT !.caps = (Default.caps \ Wide) \cup S, !.force = f, !.gp = p, !.db = d, !.dbb = Str("data")] : S \in SUBSET Wide, f \in {"none", IF "sha2" \in Known THEN "sha2" ELSE "native"}, p \in {"native"}, d \in {"-", "d"}}
         \cup {[Default EXCEPT !.caps = c, !.gp = p, !.gnul = z, !.clear = TRUE] : c \in {0..31, {9, 15, 19}, {15, 19}, {9, 15}, {9, 15, 19, 5, 11, 21, 20, 26}, {9}, {}}, p \in {"native", "sha2", "clear"}, z \in BOOLEAN}
         \cup {[Default EXCEPT !.nonce = n, !.gp = p, !.caps = c] : n \in 1..7, p \in {"native", "sha2"}, c \in {Default.caps, Default.caps \ {15, 19}, NoPlugin}}
         \cup {[Default EXCEPT !.id = i, !.status = s] : i \in {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<1, 2, 3, 4>>}, s \in {0, 2, 65531, 16384}}
         \cup {[Default EXCEPT !.user = u, !.db = d, !.dbb = IF d = "-" THEN <<>> ELSE u, !.map = m, !.pw = pw] :
                  u \in {<<>>, Str("a user"), [i \in 1..300 |-> 97 + (i % 26)], <<195, 164, 226, 130, 172>>}, d \in {"-", "d"}, m \in {0, 1, 16777215, 2147483647}, pw \in {<<>>, <<195, 164>>, [i \in 1..300 |-> 97]}}
         \cup {[Default EXCEPT !.bmap = b] : b \in {<<0, 0, 0, 128, 0, 0, 0, 0>>, <<255, 255, 255, 255, 0, 0, 0, 0>>, <<0, 0, 0, 0, 1, 0, 0, 0>>, <<5, 4, 3, 2, 1, 0, 0, 0>>, [i \in 1..8 |-> 255]}}
         \* proofs of every length form, and names the protocol cannot carry
         \cup {[Default EXCEPT !.gp = "clear", !.clear = TRUE, !.pw = [i \in 1..l |-> 33 + (i % 90)], !.caps = (Default.caps \ {15, 21}) \cup c] :
                  l \in {0, 1, 249, 250, 251, 253, 254, 255, 256, 300, 65534, 65535}, c \in SUBSET {15, 21}}
         \cup {[Default EXCEPT !.gp = p, !.pw = pw, !.caps = Default.caps \cup c] : p \in {"native", "sha2"}, pw \in {<<0>>, <<195, 164>>, [i \in 1..300 |-> 97 + (i % 26)], [i \in 1..5000 |-> 97 + (i % 26)]}, c \in {{}, {21}}}
         \cup {[Default EXCEPT !.user = u, !.db = d, !.dbb = IF d = "-" THEN <<>> ELSE b, !.gp = "native"] : u \in {<<97, 0, 98>>, <<0>>, Str("u")}, d \in {"-", "d"}, b \in {<<0>>, <<100, 0>>, Str("d")}}
         \cup {[Default EXCEPT !.map = -1, !.smap = i, !.caps = c] : i \in 1..Len(SMaps), c \in {Default.caps, Default.caps \ {24}, Default.caps \ {9, 13}, Default.caps \ {24, 9}}}

Init == /\ o \in Opts
        /\ ph = "greet" /\ cl = [plugin |-> "-", use |-> "-", nonce |-> <<>>, switched |-> 0, key |-> "-"] /\ seq = 0
        /\ hist = <<[k |-> "call", op |-> "connect"]>> /\ sent = {} /\ log = <<>> /\ res = [st |-> "none", r |-> [none |-> 0]]
\* fast path succeeded: the final answer follows
Fast(m) == Final(m)
\* a packet of the client ends the dialogue so far
WroteLast == hist[Len(hist)].k = "w"
Can(m) == m.k \in WTroubles => WroteLast
Next == \/ ph = "greet" /\ \E m \in GreetMsgs : Greet(m)
        \/ ph = "auth" /\ \E m \in AuthMsgs : Can(m) /\ Auth(m)
        \/ ph = "key" /\ \E m \in KeyMsgs : Can(m) /\ Key(m)
        \/ ph = "final" /\ \E m \in FinalMsgs : Can(m) /\ Final(m)
        \/ ph = "fast" /\ \E m \in FinalMsgs : Can(m) /\ Fast(m)
Spec == Init /\ [][Next]_vars

(********************************* properties *********************************)
\* C10: the password itself is sent only where that is allowed
Secrecy == \A t \in sent : t.t = "plain" => \/ t.why = "full" /\ o.secure
                                            \/ t.why = "clear" /\ o.clear
\* C10: encrypted for the configured key, if there is one, or for one the server sent; never over the configured one
Keys == \A t \in sent : t.t = "rsa" => IF o.key # "-" THEN t.key = o.key ELSE \E i \in 1..Len(log) : log[i].k = "key" /\ log[i].key = t.key
\* C10: a full proof only on request
OnRequest == \A t \in sent : t.t = "rsa" \/ (t.t = "plain" /\ t.why = "full") => \E i \in 2..Len(log) : log[i].k = "more" /\ log[i].b # <<>> /\ log[i].b[1] = 4
\* C10: proofs are salted with a nonce of this dialogue
Salted == \A t \in sent : t.t \in {"native", "sha2"} => t.nonce = GNonce \/ \E i \in 2..Len(log) : log[i].k = "switch" /\ t.nonce = Nonce(log[i].nonce)
\* C09: connected only after a final OK
Accepted == res.st = "connected" => Len(log) >= 2 /\ log[Len(log)].k = "ok" /\ ph = "done"
\* C09: at most one switch is followed, and none to another plugin than the enforced one
OneSwitch == /\ Cardinality({i \in 2..Len(log) : log[i].k = "switch"}) <= 2
             /\ res.st = "connected" => Cardinality({i \in 2..Len(log) : log[i].k = "switch"}) = cl.switched
             /\ o.force # "none" /\ res.st = "connected" => cl.use = o.force
\* C09: the dialogue ends, and a server error is that error
Errors == ph = "done" /\ res.st = "error" => /\ "err" \in DOMAIN res.r
                                              /\ Len(log) >= 2 => ((log[Len(log)].k = "err") <=> (res.r.err = "server" /\ res.r.code # 1142))
\* C08
Offers == 24 \in Stated => 24 \in Offered
CapsOk == Stated \subseteq (Offered \cup {19, 3}) /\ Stated \subseteq (Implemented \cup {3}) /\ (3 \in Stated <=> o.db # "-")

(********************************* generation *********************************)
OptsOut == [user |-> o.user, password |-> o.pw, map |-> IF o.bmap # <<>> THEN o.bmap ELSE o.map, timeout |-> Wait, clear |-> o.clear, plugin |-> o.force, key |-> o.key] @@ (IF o.db = "-" THEN [t |-> 0] ELSE [db |-> o.dbb])
Scenario == [opts |-> OptsOut, secure |-> o.secure, ev |-> Slowly(hist, SlowR, SlowW, SlowHow)]
Emit == ph = "done" => PrintT("@@" \o ToJson(IF SlowHow = "late" THEN Scenario @@ [frag |-> 1] ELSE Scenario))
=============================================================================
