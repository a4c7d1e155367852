----------------------------- MODULE SqlCheck ------------------------------
(* What the real code made of texts and values, against the lexer of the server. *)
EXTENDS SqlLex, Json, IOUtils

R == JsonDeserialize(IOEnv.TRACES)

TextWrong(r) ==
  LET want == NameFor(r.s) IN
  (IF ~IsString(r.str, FALSE) THEN (IF Contains(r.s, 26) /\ IsString(r.str, TRUE) /\ StringOf(r.str, TRUE) = r.s THEN <<"z">> ELSE <<"the escaped string is no string literal">>)
   ELSE IF StringOf(r.str, FALSE) = r.s THEN <<>>
   ELSE IF Contains(r.s, 26) /\ StringOf(r.str, TRUE) = r.s THEN <<"z">>
   ELSE <<"the escaped string is another text">>)
  \o (IF ~IsName(r.id) THEN <<"the escaped identifier is no quoted identifier">> ELSE IF NameOf(r.id) # want THEN <<"the escaped identifier is another name">> ELSE <<>>)
  \o (IF r.un # SelectSeq(r.s, Bare) THEN <<"the unquoted identifier is not what is left of the text">> ELSE <<>>)
Wrong(r) == IF r.k = "text" THEN TextWrong(r) ELSE IF Denotes(r.v, r.o) THEN <<>> ELSE <<"the literal does not denote the value">>

VARIABLES i, wrong
Init == i = 0 /\ wrong = <<>>
Next == i < Len(R) /\ i' = i + 1 /\ wrong' = Wrong(R[i + 1])
Spec == Init /\ [][Next]_<<i, wrong>>
Emit == i > 0 /\ wrong # <<>> => PrintT("@@" \o ToJson([i |-> i, wrong |-> wrong]))
=============================================================================
