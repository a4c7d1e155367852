------------------------------ MODULE Session -------------------------------
(* One connection: API calls, exchanges, results, statements and faults.

   The client part follows the implementation step by step (one action per packet read or written);
   conn has the state the connection keeps between calls:
     pend  rows of the current result are still to be read     (pending_result)
     more  a further result of the same answer follows         (more_results)
     busy  an exchange is under way or was cut short           (busy)
     open  statement to be closed, 0 if none                   (open_statement)
     seq   next expected frame number                          (seq_id)
   cl is the call under way, scope the objects the user holds, net the packets on their way to the
   client; each packet carries the command (c) and result (r) it belongs to, which the client cannot
   see and the invariants are about.  hist records the behaviour for replay on the real client. *)
EXTENDS Wire, FiniteSets, Json

CONSTANTS MaxOps, Legacy, Ops, Shapes, PShapes, Faults, Gen, Secondary, SlowR, SlowW, SlowHow, Wait

VARIABLES net, cl, conn, scope, srv, n, hist, bad

vars == <<net, cl, conn, scope, srv, n, hist, bad>>
View == <<net, cl, conn, scope, srv, n, bad>>

(***************************** the server's answers *****************************)
P(k, c, r, i, x) == [k |-> k, c |-> c, r |-> r, i |-> i, x |-> x, s |-> 0, off |-> 0, bin |-> FALSE]
OkR(c, r, more) == <<P("ok", c, r, 0, more)>>
ErrR(c, r) == <<P("err", c, r, 0, 0)>>
NCols(c, r) == 1 + ((c + r) % 2)
\* rows: "g" decodes, "b" does not; end: "eof" | "err"
RsR(c, r, rows, end, more) ==
  <<P("hdr", c, r, NCols(c, r), 0)>> \o [i \in 1..NCols(c, r) |-> P("def", c, r, i, 0)]
    \o (IF Legacy THEN <<P("defeof", c, r, 0, 0)>> ELSE <<>>)
    \o [i \in 1..Len(rows) |-> P("row", c, r, i, rows[i])]
    \o (IF end = "err" THEN ErrR(c, r) ELSE <<P("eof", c, r, 0, more)>>)

Answer(shape, c) ==
  CASE shape = "ok" -> OkR(c, 1, 0)
    [] shape = "err" -> ErrR(c, 1)
    [] shape = "rs0" -> RsR(c, 1, <<>>, "eof", 0)
    [] shape = "rs1" -> RsR(c, 1, <<"g">>, "eof", 0)
    [] shape = "rs2" -> RsR(c, 1, <<"g", "g">>, "eof", 0)
    [] shape = "rs3" -> RsR(c, 1, <<"g", "g", "g">>, "eof", 0)
    [] shape = "rsbg" -> RsR(c, 1, <<"b", "g">>, "eof", 0)
    [] shape = "rsgb" -> RsR(c, 1, <<"g", "b">>, "eof", 0)
    [] shape = "rserr0" -> RsR(c, 1, <<>>, "err", 0)
    [] shape = "rserr1" -> RsR(c, 1, <<"g">>, "err", 0)
    [] shape = "ok+ok" -> OkR(c, 1, 1) \o OkR(c, 2, 0)
    [] shape = "ok+err" -> OkR(c, 1, 1) \o ErrR(c, 2)
    [] shape = "ok+rs1" -> OkR(c, 1, 1) \o RsR(c, 2, <<"g">>, "eof", 0)
    [] shape = "rs1+ok" -> RsR(c, 1, <<"g">>, "eof", 1) \o OkR(c, 2, 0)
    [] shape = "rs1+err" -> RsR(c, 1, <<"g">>, "eof", 1) \o ErrR(c, 2)
    [] shape = "rs1+rs1" -> RsR(c, 1, <<"g">>, "eof", 1) \o RsR(c, 2, <<"g">>, "eof", 0)
    [] shape = "rs1+rserr1" -> RsR(c, 1, <<"g">>, "eof", 1) \o RsR(c, 2, <<"g">>, "err", 0)
    [] shape = "rs0+rs1+ok" -> RsR(c, 1, <<>>, "eof", 1) \o RsR(c, 2, <<"b">>, "eof", 1) \o OkR(c, 3, 0)
    [] shape = "ok+ok+rs1" -> OkR(c, 1, 1) \o OkR(c, 2, 1) \o RsR(c, 3, <<"g">>, "eof", 0)
    [] shape = "junk" -> <<P("junk", c, 1, 0, 0)>>
    [] shape = "infile" -> <<P("infile", c, 1, 0, 0)>>
    [] shape = "empty" -> <<P("empty", c, 1, 0, 0)>>
    [] shape = "baddef" -> <<P("hdr", c, 1, 1, 0), P("junk", c, 1, 0, 0)>>

\* prepare: number of parameters and columns
PAnswer(shape, c) ==
  CASE shape = "perr" -> ErrR(c, 1)
    [] shape = "pjunk" -> <<P("junk", c, 1, 0, 0)>>
    [] OTHER ->
       LET np == IF shape = "p10" THEN 1 ELSE IF shape = "p21" THEN 2 ELSE 0
           nc == IF shape = "p01" THEN 1 ELSE IF shape = "p21" THEN 1 ELSE 0
           defs(m) == IF m = 0 THEN <<>> ELSE [i \in 1..m |-> P("pdef", c, 1, i, 0)] \o (IF Legacy THEN <<P("defeof", c, 1, 0, 0)>> ELSE <<>>)
       IN <<P("pok", c, 1, np, nc)>> \o defs(np) \o defs(nc)

Number(pkts, bin) == [i \in 1..Len(pkts) |-> [pkts[i] EXCEPT !.s = i % 256, !.bin = bin]]

(********************************** encodings **********************************)
AffectedRows(c, r) == 260 * c + r
InsertId(c, r) == 70000 * c + r
\* what else the server says about its state has nothing to do with it; one of the bits has no meaning (and no name)
Extra == <<0, 32, 4096, 1 + 128, 2048 + 16, 64, 32768 + 512, 16384 + 256, 8192 + 1024>>
OkStatus(c, r, more) == 2 + 8 * more + Extra[((4 * c + r) % Len(Extra)) + 1]
WireStatus(c, r, more) == OkStatus(c, r, more) + (IF (c + r) % 3 = 0 THEN 4 ELSE 0)
Warnings(c, r) == 257 * c + r
OkMsg(c, r) == IF r = 1 THEN Str("ok message ") \o Dec(c) ELSE <<>>
ErrCode(c, r) == 1000 + 10 * c + r
ErrMsg(c, r) == Str("server error ") \o Dec(c) \o Str("/") \o Dec(r)
ColName(c, r, i) == Str("col") \o Dec(c) \o Str("_") \o Dec(r) \o Str("_") \o Dec(i)
RowVal(c, r, i, j) == 1000000 * c + 10000 * r + 10 * i + j - 5000000
\* all bytes matter; any number is one
StmtId(c) == IF c = 2 THEN <<0, 0, 0, 0>> ELSE IF c = 3 THEN <<255, 255, 255, 255>> ELSE <<7, 201, c, 255 - c>>

Body(p) ==
  CASE p.k = "ok" -> OkBody(AffectedRows(p.c, p.r), InsertId(p.c, p.r), WireStatus(p.c, p.r, p.x), Warnings(p.c, p.r), OkMsg(p.c, p.r))
    [] p.k = "err" -> ErrBody(ErrCode(p.c, p.r), Str("HY000"), ErrMsg(p.c, p.r))
    [] p.k = "hdr" -> <<p.i>>
    [] p.k = "def" -> DefBody(Str("db"), Str("t"), Str("ot"), ColName(p.c, p.r, p.i), Str("org"), 63, 11, 3, 0, 0)
    [] p.k = "pdef" -> DefBody(<<>>, <<>>, <<>>, Str("?"), <<>>, 63, 0, 253, 128, 0)
    [] p.k = "defeof" -> EofBody(TRUE, 2, 0)
    [] p.k = "eof" -> EofBody(Legacy, WireStatus(p.c, p.r, p.x), Warnings(p.c, p.r))
    [] p.k = "row" ->
        LET m == NCols(p.c, p.r) IN
        IF p.bin
        THEN <<0, 0>> \o Cat([j \in 1..m |-> IF p.x = "b" /\ j = m THEN <<1, 2>> ELSE
                 LET v == RowVal(p.c, p.r, p.i, j) IN
                 IF v >= 0 THEN U32(v) ELSE
                   \* two's complement
                   LET w == -v - 1 IN [q \in 1..4 |-> 255 - U32(w)[q]]])
        ELSE Cat([j \in 1..m |-> LenStr(IF p.x = "b" /\ j = m THEN Str("1x") ELSE Dec(RowVal(p.c, p.r, p.i, j)))])
    [] p.k = "pok" -> <<0>> \o (StmtId(p.c)) \o U16(p.x) \o U16(p.i) \o <<0>> \o U16(0)
    [] p.k = "junk" -> <<253, 1>>
    [] p.k = "infile" -> <<251>> \o Str("/etc/x")
    [] p.k = "empty" -> <<>>

Sql(c) == "stmt " \o ToString(c)
CmdBody(w) ==
  CASE w.k = "query" -> <<3>> \o Str(Sql(w.c))
    [] w.k = "prepare" -> <<22>> \o Str(Sql(w.c))
    [] w.k = "close" -> <<25>> \o (StmtId(w.c))
    [] w.k = "quit" -> <<1>>
    \* np parameters with the values Int(c), Null
    [] w.k = "execute" -> <<23>> \o (StmtId(w.st)) \o <<0, 1, 0, 0, 0>> \o
         (IF w.np = 0 THEN <<>> ELSE
            <<IF w.np = 2 THEN 2 ELSE 0, 1>> \o <<3, 0>> \o (IF w.np = 2 THEN <<6, 0>> ELSE <<>>) \o U32(w.c))
Params(np, c) == IF np = 0 THEN <<>> ELSE IF np = 1 THEN <<<<"Int", c>>>> ELSE <<<<"Int", c>>, <<"Null">>>>

(********************************** results **********************************)
ROk(c, r, more) == [ok |-> [ar |-> AffectedRows(c, r), li |-> InsertId(c, r), st |-> OkStatus(c, r, more), w |-> Warnings(c, r), msg |-> OkMsg(c, r)]]
\* rows change nothing
REof(c, r, more) == [ok |-> [ar |-> 0, li |-> 0, st |-> OkStatus(c, r, more), w |-> Warnings(c, r)]]
RSrv(c, r) == [err |-> "server", code |-> ErrCode(c, r), state |-> "HY000", msg |-> ErrMsg(c, r)]
RLocal == [err |-> "local"]
ROos == [err |-> "oos"]
RAny == [err |-> "local", lax |-> TRUE]
\* C04: refused, and nothing is written into the broken exchange
RRefused == RAny @@ [silent |-> TRUE]
RNone == [row |-> "none"]
RowOf(p) == [j \in 1..NCols(p.c, p.r) |-> <<"Int", RowVal(p.c, p.r, p.i, j)>>]
RRow(p) == [row |-> RowOf(p)]
RCols(c, r) == [cols |-> [i \in 1..NCols(c, r) |-> [n |-> ColName(c, r, i), on |-> "org", t |-> "t", ot |-> "ot", ty |-> 3, f |-> 0]]]
RNoCols == [cols |-> <<>>]

(********************************** history **********************************)
H(evs) == hist' = IF Gen THEN hist \o evs ELSE hist
Ev(k) == [k |-> k]
Call(op) == [k |-> "call", op |-> op]
Ret(r) == [k |-> "ret"] @@ r
RBytes(p, from, to) == [k |-> "r", p |-> p, from |-> from, to |-> to]
WCmd(w) == [k |-> "w", w |-> w, upto |-> -1]

Encode(e) ==
  IF e.k = "r" /\ "p" \in DOMAIN e THEN
     LET f == Frame(Body(e.p), e.p.s)
         hi == IF e.to < 0 THEN Len(f) ELSE e.to
     IN [k |-> "r", b |-> SubSeq(f, e.from + 1, hi)]
  ELSE IF e.k = "w" /\ "w" \in DOMAIN e THEN
     LET f == Frame(CmdBody(e.w), 0) IN [k |-> "w", b |-> IF e.upto < 0 THEN f ELSE SubSeq(f, 1, e.upto)]
  ELSE e

(********************************** state **********************************)
NoRs == [c |-> 0, r |-> 0, done |-> FALSE, bin |-> FALSE, end |-> [ok |-> 0]]
NoCall == [ph |-> "idle", op |-> "", c |-> 0, left |-> 0, acc |-> <<>>, res |-> [none |-> 0], st |-> 0, np |-> 0, todo |-> <<>>]

Init ==
  /\ net = <<>> /\ cl = NoCall /\ hist = <<>> /\ bad = {}
  /\ conn = [pend |-> FALSE, more |-> FALSE, busy |-> FALSE, open |-> 0, seq |-> 0]
  /\ scope = [rs |-> NoRs, st |-> 0, np |-> 0]
  /\ srv = [stmts |-> {}, last |-> 0, dead |-> FALSE]
  /\ n = [ops |-> 0, cmds |-> 0, faults |-> 0]

HasRs == scope.rs.c # 0
HasSt == scope.st # 0
WireOps == {"query", "exec", "prepare", "cleanup", "disconnect", "squery", "sexec"}
StOps == {"squery", "sexec", "sexecbad", "drop_stmt"}
RsOps == {"next", "one", "collect", "columns", "finish", "finish_inner", "into_inner", "drop_rs"}

Allowed(op) == CASE op \in RsOps -> HasRs [] op \in StOps -> HasSt [] OTHER -> TRUE

\* call returns
Return(ret, newscope) ==
  /\ cl' = NoCall
  /\ scope' = newscope
\* ghost: a success on a connection that lost its place
Success(ret) == "err" \notin DOMAIN ret

\* the objects the user still holds when it starts this call
ScopeFor(op) ==
  CASE op \in RsOps -> scope
    [] op \in StOps -> [scope EXCEPT !.rs = NoRs]
    [] OTHER -> [rs |-> NoRs, st |-> 0, np |-> 0]

Late == IF net # <<>> /\ conn.busy /\ ~srv.dead THEN [i \in 1..Len(net) |-> RBytes(net[i], net[i].off, -1)] ELSE <<>>

CallEv(op, c) ==
  CASE op \in {"query", "exec", "prepare"} -> [k |-> "call", op |-> op, sql |-> Sql(c)]
    [] op \in {"squery", "sexec"} -> [k |-> "call", op |-> op, params |-> Params(scope.np, c)]
    [] op = "sexecbad" -> [k |-> "call", op |-> "sexec", params |-> Params(IF scope.np = 0 THEN 1 ELSE scope.np - 1, c)]
    [] OTHER -> Call(op)

\* A call that needs nothing from the transport
Immediate(op, ret, newscope, newn) ==
  \* what the server still sends arrives before a call that could take it for an answer
  /\ LET late == IF "lax" \in DOMAIN ret THEN Late ELSE <<>> IN
       /\ H(late \o <<CallEv(op, n.cmds + 1), Ret(ret)>>)
       /\ net' = IF late # <<>> THEN <<>> ELSE net
  /\ scope' = newscope /\ n' = newn
  /\ bad' = bad \cup (IF Success(ret) /\ conn.busy /\ op \notin {"columns", "into_inner", "drop_rs", "drop_stmt"} /\ ~(HasRs /\ scope.rs.done) THEN {"trusted"} ELSE {})
  /\ UNCHANGED <<cl, conn, srv>>

\* The connection is given back to the pool it came from, and the next one is taken: the pool (of one
\* connection) hands it out again if its place in the dialogue is known, and opens a new one otherwise.
Recycle ==
  /\ cl.ph = "idle" /\ n.ops < MaxOps /\ "recycle" \in Ops
  /\ scope' = [rs |-> NoRs, st |-> 0, np |-> 0]
  /\ IF conn.busy
     THEN /\ H(<<Call("recycle")>> \o Tail(Prelude(Legacy)))
          /\ conn' = [pend |-> FALSE, more |-> FALSE, busy |-> FALSE, open |-> 0, seq |-> 0]
          /\ net' = <<>>
          /\ srv' = [srv EXCEPT !.stmts = {}, !.dead = FALSE]
          /\ n' = [n EXCEPT !.ops = @ + 1, !.faults = 0]
     ELSE /\ H(<<Call("recycle"), Ret([data |-> [id |-> 77]])>>)
          /\ n' = [n EXCEPT !.ops = @ + 1]
          /\ UNCHANGED <<conn, net, srv>>
  /\ UNCHANGED <<cl, bad>>

Begin(op) ==
  /\ cl.ph = "idle" /\ n.ops < MaxOps /\ op \in Ops \ {"recycle"} /\ Allowed(op)
  /\ LET s == ScopeFor(op)
         nn == [n EXCEPT !.ops = IF op = "disconnect" THEN MaxOps ELSE @ + 1]
         noRs == [s EXCEPT !.rs = NoRs]
         rs == scope.rs
     IN
     IF op = "sexecbad" THEN Immediate(op, [err |-> "param"], s, nn)
     ELSE IF op = "drop_rs" THEN Immediate(op, [done |-> 0], noRs, nn)
     ELSE IF op = "drop_stmt" THEN Immediate(op, [done |-> 0], [rs |-> NoRs, st |-> 0, np |-> 0], nn)
     ELSE IF op \in WireOps THEN
       IF conn.busy THEN Immediate(op, RRefused, s, nn)
       ELSE /\ cl' = [NoCall EXCEPT !.ph = "drain", !.op = op, !.c = n.cmds + 1, !.st = s.st, !.np = s.np]
            /\ H(<<CallEv(op, n.cmds + 1)>>)
            /\ scope' = s /\ n' = nn /\ UNCHANGED <<net, conn, srv, bad>>
     ELSE IF op = "columns" THEN Immediate(op, IF rs.r = 0 THEN RNoCols ELSE RCols(rs.c, rs.r), s, nn)
     ELSE IF op = "into_inner" THEN Immediate(op, IF rs.r = 0 THEN RNoCols ELSE RCols(rs.c, rs.r), noRs, nn)
     \* reading rows
     ELSE IF rs.done THEN
        CASE op \in {"next", "one"} -> Immediate(op, RNone, s, nn)
          [] op = "collect" -> Immediate(op, [rows |-> <<>>], s, nn)
          [] op = "finish" -> Immediate(op, rs.end, noRs, nn)
          [] op = "finish_inner" -> Immediate(op, rs.end @@ (IF rs.r = 0 THEN RNoCols ELSE RCols(rs.c, rs.r)), noRs, nn)
     ELSE IF ~conn.pend THEN \* ended by an error
        CASE op \in {"next", "one"} -> Immediate(op, RNone, s, nn)
          [] op = "collect" -> Immediate(op, [rows |-> <<>>], s, nn)
          [] op \in {"finish", "finish_inner"} -> Immediate(op, RLocal, noRs, nn)
     ELSE IF conn.busy THEN Immediate(op, RRefused, IF op \in {"finish", "finish_inner"} THEN noRs ELSE s, nn)
     ELSE /\ cl' = [NoCall EXCEPT !.ph = "row", !.op = op, !.c = rs.c]
          /\ H(<<CallEv(op, 0)>>)
          /\ scope' = s /\ n' = nn /\ UNCHANGED <<net, conn, srv, bad>>

(************************** reading and interpreting **************************)
\* what the client takes the next packet for
Role ==
  CASE cl.ph \in {"drain", "row"} -> IF conn.pend THEN "row" ELSE "hdr"
    [] cl.ph \in {"hdr"} -> "hdr"
    [] cl.ph = "prep" -> "prep"
    [] cl.ph \in {"defs", "ddefs"} -> IF cl.left = 0 THEN "defeof" ELSE "def"
    [] cl.ph = "pdefs" -> IF cl.todo[1] = 0 THEN "defeof" ELSE "pdef"
Reading == cl.ph \in {"row", "hdr", "prep", "defs", "ddefs", "pdefs"} \/ (cl.ph = "drain" /\ (conn.pend \/ conn.more))

Fits(p) ==
  LET role == Role IN
  /\ p.c = srv.last
  /\ CASE role = "row" -> p.k \in {"row", "eof", "err"}
       [] role = "hdr" -> p.k \in {"ok", "err", "hdr", "junk", "infile", "empty"}
       [] role = "prep" -> p.k \in {"pok", "err", "junk"}
       [] role = "def" -> p.k \in {"def", "junk"}
       [] role = "pdef" -> p.k = "pdef"
       [] role = "defeof" -> p.k = "defeof"

\* the scope after the call failed
FailScope == IF cl.op \in {"finish", "finish_inner"} THEN [scope EXCEPT !.rs = NoRs] ELSE scope

Broken(ret) ==
  /\ cl' = NoCall /\ scope' = FailScope /\ conn' = [conn EXCEPT !.busy = TRUE]

DefsEnd == IF Legacy THEN 1 ELSE 0   \* packets after a non-empty list of definitions

FinishRead(p, newconn, newcl, ret, newscope) ==
  \* the packet was understood; ret = [go |-> 0] : the call goes on
  /\ conn' = [newconn EXCEPT !.seq = (conn.seq + 1) % 256]
  /\ net' = Tail(net)
  /\ bad' = bad \cup (IF Fits(p) THEN {} ELSE {"pairing"})
  /\ n' = n
  /\ IF "go" \in DOMAIN ret
     THEN /\ cl' = newcl /\ scope' = newscope /\ H(<<RBytes(p, p.off, -1)>>)
     ELSE /\ cl' = NoCall /\ scope' = newscope /\ H(<<RBytes(p, p.off, -1), Ret(ret)>>)

Go == [go |-> 0]

OpenRs(c, r, bin) == [scope EXCEPT !.rs = [c |-> c, r |-> r, done |-> FALSE, bin |-> bin, end |-> [ok |-> 0]]]
DoneRs(c, end) == [scope EXCEPT !.rs = [c |-> c, r |-> 0, done |-> TRUE, bin |-> FALSE, end |-> end]]
EndRs(end) == [scope EXCEPT !.rs.done = TRUE, !.rs.end = end]
\* cleanup reports how the last result it skipped ended (after an error: anything)
Skipped(end) == IF cl.op = "cleanup" THEN [cl EXCEPT !.res = end] ELSE cl
NoRsScope == [scope EXCEPT !.rs = NoRs]

ReadPkt ==
  /\ Reading /\ net # <<>> /\ srv' = srv
  /\ LET p == Head(net)
         role == Role
         free(cn) == [cn EXCEPT !.busy = FALSE]
         \* the answer cannot be understood
         lost(q) == /\ conn' = [conn EXCEPT !.busy = TRUE]
                    /\ net' = Tail(net) /\ n' = n
                    /\ bad' = bad \cup (IF Fits(q) THEN {} ELSE {"pairing"})
                    /\ cl' = NoCall /\ scope' = FailScope
                    /\ H(<<RBytes(q, q.off, -1), Ret(RAny)>>)
     IN
     CASE role = "row" ->
          (IF cl.ph = "drain" THEN
             CASE p.k = "row" -> FinishRead(p, conn, cl, Go, scope)
               [] p.k = "eof" -> FinishRead(p, [conn EXCEPT !.pend = FALSE, !.more = p.x = 1], Skipped(REof(p.c, p.r, p.x)), Go, scope)
               [] p.k = "err" -> FinishRead(p, [conn EXCEPT !.pend = FALSE, !.more = FALSE], Skipped([done |-> 0]), Go, scope)
           ELSE
             LET eofc == [conn EXCEPT !.pend = FALSE, !.more = p.x = 1]
                 errc == [conn EXCEPT !.pend = FALSE, !.more = FALSE]
                 end == REof(p.c, p.r, p.x)
                 first == "none" \in DOMAIN cl.res
             IN
             CASE cl.op = "next" ->
                 (CASE p.k = "row" -> FinishRead(p, conn, cl, IF p.x = "g" THEN RRow(p) ELSE RLocal, scope)
                    [] p.k = "eof" -> FinishRead(p, eofc, cl, RNone, EndRs(end))
                    [] p.k = "err" -> FinishRead(p, errc, cl, RSrv(p.c, p.r), scope))
               [] cl.op = "collect" ->
                 (CASE p.k = "row" -> IF p.x = "g" THEN FinishRead(p, conn, [cl EXCEPT !.acc = Append(@, RowOf(p))], Go, scope)
                                      ELSE FinishRead(p, conn, cl, RLocal, scope)
                    [] p.k = "eof" -> FinishRead(p, eofc, cl, [rows |-> cl.acc], EndRs(end))
                    [] p.k = "err" -> FinishRead(p, errc, cl, RSrv(p.c, p.r), scope))
               [] cl.op = "one" ->
                 (CASE p.k = "row" -> IF first THEN FinishRead(p, conn, [cl EXCEPT !.res = IF p.x = "g" THEN RRow(p) ELSE RLocal], Go, scope)
                                      ELSE IF p.x = "g" THEN FinishRead(p, conn, cl, Go, scope)
                                      ELSE FinishRead(p, conn, cl, RLocal, scope)
                    [] p.k = "eof" -> FinishRead(p, eofc, cl, IF first THEN RNone ELSE cl.res, EndRs(end))
                    [] p.k = "err" -> FinishRead(p, errc, cl, RSrv(p.c, p.r), scope))
               [] cl.op \in {"finish", "finish_inner"} ->
                 (CASE p.k = "row" -> IF p.x = "g" THEN FinishRead(p, conn, cl, Go, scope) ELSE FinishRead(p, conn, cl, RLocal, NoRsScope)
                    [] p.k = "eof" -> FinishRead(p, eofc, cl, IF cl.op = "finish" THEN end ELSE end @@ RCols(p.c, p.r), NoRsScope)
                    [] p.k = "err" -> FinishRead(p, errc, cl, RSrv(p.c, p.r), NoRsScope)))
       [] role = "hdr" ->
          (IF cl.ph = "drain" THEN
             CASE p.k = "ok" -> FinishRead(p, [conn EXCEPT !.more = p.x = 1], Skipped(ROk(p.c, p.r, p.x)), Go, scope)
               [] p.k = "err" -> FinishRead(p, [conn EXCEPT !.more = FALSE], Skipped([done |-> 0]), Go, scope)
               [] p.k = "hdr" -> FinishRead(p, conn, [cl EXCEPT !.ph = "ddefs", !.left = p.i], Go, scope)
               [] OTHER -> lost(p)
           ELSE
             CASE p.k = "ok" -> FinishRead(p, [free(conn) EXCEPT !.more = p.x = 1], cl, ROk(p.c, p.r, p.x) @@ (IF cl.op \in {"query", "squery"} THEN RNoCols ELSE <<>>),
                                           IF cl.op \in {"query", "squery"} THEN DoneRs(p.c, ROk(p.c, p.r, p.x)) ELSE scope)
               [] p.k = "err" -> FinishRead(p, [free(conn) EXCEPT !.more = FALSE], cl, RSrv(p.c, p.r), scope)
               [] p.k = "hdr" -> FinishRead(p, conn, [cl EXCEPT !.ph = "defs", !.left = p.i], Go, scope)
               [] OTHER -> lost(p))
       [] role \in {"def", "defeof"} /\ cl.ph # "pdefs" ->
          (IF p.k = "junk" THEN lost(p)
           ELSE LET left == IF role = "def" THEN cl.left - 1 ELSE 0
                    complete == left = 0 /\ (role = "defeof" \/ ~Legacy)
                    newconn == IF complete THEN [free(conn) EXCEPT !.pend = TRUE] ELSE conn
                IN IF ~complete THEN FinishRead(p, newconn, [cl EXCEPT !.left = left], Go, scope)
                   ELSE IF cl.ph = "ddefs" THEN FinishRead(p, newconn, [cl EXCEPT !.ph = "drain", !.left = 0], Go, scope)
                   ELSE IF cl.op \in {"query", "squery"} THEN FinishRead(p, newconn, cl, RCols(p.c, p.r), OpenRs(p.c, p.r, cl.op = "squery"))
                   ELSE FinishRead(p, newconn, cl, RLocal, scope))
       [] role = "prep" ->
          (CASE p.k = "err" -> FinishRead(p, free(conn), cl, RSrv(p.c, p.r), scope)
             [] p.k = "pok" ->
                LET todo == SelectSeq(<<p.i, p.x>>, LAMBDA m : m # 0)
                    st == [scope EXCEPT !.st = p.c, !.np = p.i]
                IN IF todo = <<>> THEN FinishRead(p, [free(conn) EXCEPT !.open = p.c], cl, [stmt |-> 0], st)
                   ELSE FinishRead(p, conn, [cl EXCEPT !.ph = "pdefs", !.todo = todo, !.st = p.c, !.np = p.i], Go, scope)
             [] OTHER -> lost(p))
       [] cl.ph = "pdefs" ->
          LET first == IF role = "pdef" THEN cl.todo[1] - 1 ELSE 0
              over == first = 0 /\ (cl.todo[1] = 0 \/ ~Legacy)
              todo == IF over THEN Tail(cl.todo) ELSE <<first>> \o Tail(cl.todo)
          IN IF todo = <<>> THEN FinishRead(p, [free(conn) EXCEPT !.open = cl.st], cl, [stmt |-> 0], [scope EXCEPT !.st = cl.st, !.np = cl.np])
             ELSE FinishRead(p, conn, [cl EXCEPT !.todo = todo], Go, scope)

(********************************** writing **********************************)
\* The skipping is over: close the statement that is not used anymore
Close ==
  /\ cl.ph = "drain" /\ ~conn.pend /\ ~conn.more
  /\ cl.op \in {"query", "exec", "prepare", "disconnect"} /\ conn.open # 0
  /\ conn' = [conn EXCEPT !.open = 0]
  /\ srv' = [srv EXCEPT !.stmts = @ \ {conn.open}]
  /\ bad' = bad \cup (IF conn.open \in srv.stmts THEN {} ELSE {"close"}) \cup (IF HasSt THEN {"closed-alive"} ELSE {})
  /\ H(<<WCmd([k |-> "close", c |-> conn.open])>>)
  /\ UNCHANGED <<net, cl, scope, n>>

Kind == CASE cl.op \in {"query", "exec"} -> "query" [] cl.op = "prepare" -> "prepare" [] cl.op = "disconnect" -> "quit" [] OTHER -> "execute"
TheCmd == [k |-> Kind, c |-> cl.c, st |-> cl.st, np |-> cl.np]

Write ==
  /\ cl.ph = "drain" /\ ~conn.pend /\ ~conn.more
  /\ cl.op # "cleanup" /\ (cl.op \in {"squery", "sexec"} \/ conn.open = 0)
  /\ bad' = bad \cup (IF net = <<>> THEN {} ELSE {"insync"}) \cup (IF cl.op \notin {"squery", "sexec"} /\ srv.stmts # {} THEN {"leak"} ELSE {})
  /\ n' = [n EXCEPT !.cmds = cl.c]
  /\ scope' = scope
  /\ IF cl.op = "disconnect" THEN
        /\ net' = <<>> /\ cl' = NoCall /\ conn' = [conn EXCEPT !.busy = TRUE] /\ srv' = srv
        /\ H(<<WCmd(TheCmd), Ret([done |-> 0])>>)
     ELSE
        /\ H(<<WCmd(TheCmd)>>)
        /\ conn' = [conn EXCEPT !.busy = TRUE, !.seq = 1]
        /\ cl' = [cl EXCEPT !.ph = IF cl.op = "prepare" THEN "prep" ELSE "hdr"]
        /\ \E shape \in (IF cl.op = "prepare" THEN PShapes ELSE IF n.cmds = 0 THEN Shapes ELSE Secondary) :
             /\ net' = Number(IF cl.op = "prepare" THEN PAnswer(shape, cl.c) ELSE Answer(shape, cl.c), cl.op \in {"squery", "sexec"})
             /\ srv' = [srv EXCEPT !.last = cl.c,
                                   !.stmts = IF cl.op = "prepare" /\ net'[1].k = "pok" THEN @ \cup {cl.c} ELSE @]

CleanupEnd ==
  /\ cl.ph = "drain" /\ ~conn.pend /\ ~conn.more /\ cl.op = "cleanup"
  /\ Return([ok |-> 0], scope) /\ H(<<Ret(IF "none" \in DOMAIN cl.res THEN [nothing |-> 0] ELSE cl.res)>>)
  /\ UNCHANGED <<net, conn, srv, n, bad>>

(********************************** faults **********************************)
\* how a call ends that got stuck (or was given up), or lost the transport
FaultRet(f) == CASE f \in {"stall", "part", "wstall"} -> <<Ev("stall"), Ret([err |-> "timeout", lax |-> TRUE, ms |-> Wait])>>
                 [] f \in {"cancel", "partcancel", "wcancel"} -> <<Ev("stall"), [k |-> "cancel", lax |-> TRUE]>>
                 [] f = "eof" -> <<Ev("eof"), Ret(RAny)>>
                 [] f \in {"reset", "wreset"} -> <<Ev("reset"), Ret(RAny)>>
                 [] f = "badseq" -> <<Ret([err |-> "oos", lax |-> TRUE])>>
                 [] f = "fstall" -> <<Ev("fstall"), Ret([err |-> "timeout", lax |-> TRUE, ms |-> Wait])>>

ReadFault(f) ==
  /\ f \in Faults /\ n.faults = 0 /\ Reading /\ net # <<>>
  /\ n' = [n EXCEPT !.faults = 1]
  /\ conn' = [conn EXCEPT !.busy = TRUE]
  /\ bad' = bad
  \* a future that is given up keeps the result set, except if that was moved into it
  /\ cl' = NoCall /\ scope' = FailScope
  /\ LET p == Head(net) IN
     CASE f \in {"stall", "cancel"} -> /\ net' = net /\ srv' = srv /\ H(FaultRet(f))
       [] f \in {"part", "partcancel"} ->
            \E cut \in {2, 4, 5} :
              /\ cut < 4 + Len(Body(p))
              /\ net' = <<[p EXCEPT !.off = cut]>> \o Tail(net) /\ srv' = srv
              /\ H(<<RBytes(p, 0, cut)>> \o FaultRet(f))
       [] f \in {"eof", "reset"} -> /\ net' = <<>> /\ srv' = [srv EXCEPT !.dead = TRUE] /\ H(FaultRet(f))
       [] f = "badseq" ->
            \E s \in {(p.s + 1) % 256, (p.s + 255) % 256} :
              /\ net' = Tail(net) /\ srv' = srv
              /\ H(<<RBytes([p EXCEPT !.s = s], 0, -1)>> \o FaultRet(f))

WriteFault(f) ==
  /\ f \in Faults /\ n.faults = 0
  /\ cl.ph = "drain" /\ ~conn.pend /\ ~conn.more /\ cl.op \notin {"cleanup", "disconnect"}
  /\ n' = [n EXCEPT !.faults = 1, !.cmds = cl.c]
  /\ conn' = [conn EXCEPT !.busy = TRUE]
  /\ cl' = NoCall /\ scope' = FailScope
  /\ \E cut \in IF f = "fstall" THEN {-1} ELSE {0, 3, 6} :
       /\ H((IF cut = 0 THEN <<>> ELSE
              <<[k |-> "w", w |-> IF conn.open # 0 /\ cl.op \notin {"squery", "sexec"} THEN [k |-> "close", c |-> conn.open] ELSE TheCmd, upto |-> cut]>>) \o FaultRet(f))
  /\ UNCHANGED <<net, srv, bad>>

Next ==
  \/ \E op \in Ops : Begin(op)
  \/ Recycle
  \/ ReadPkt \/ Close \/ Write \/ CleanupEnd
  \/ \E f \in {"stall", "cancel", "part", "partcancel", "eof", "reset", "badseq"} : ReadFault(f)
  \/ \E f \in {"wstall", "wcancel", "wreset", "fstall"} : WriteFault(f)

Spec == Init /\ [][Next]_vars

(********************************** properties **********************************)
TypeOK == /\ conn.pend \in BOOLEAN /\ conn.more \in BOOLEAN /\ conn.busy \in BOOLEAN
\* C03: what the client takes a packet for is what the server sent it for
Pairing == "pairing" \notin bad
\* C03: a command is written only when nothing of an earlier answer is left
InSync == "insync" \notin bad /\ (cl.ph = "idle" /\ ~conn.busy /\ ~conn.pend /\ ~conn.more => net = <<>>)
\* C04
Trusted == "trusted" \notin bad
\* C24
Closing == bad \cap {"close", "closed-alive", "leak"} = {}
AliveOpen == HasSt => scope.st \in srv.stmts
\* every call ends
Progress == cl.ph # "idle" => ENABLED Next

(********************************** generation **********************************)
Done == cl.ph = "idle" /\ n.ops = MaxOps
Scenario == [opts |-> LET p == [PreludeOpts EXCEPT !.timeout = Wait] IN IF "recycle" \in Ops THEN p @@ [pool |-> TRUE] ELSE p, ev |-> Slowly(Prelude(Legacy) \o [i \in 1..Len(hist) |-> Encode(hist[i])], SlowR, SlowW, SlowHow)]
\* what arrives late must be there at once
Emit == Done /\ Gen => PrintT("@@" \o ToJson(IF SlowHow = "late" THEN Scenario @@ [frag |-> 1] ELSE Scenario))
=============================================================================
