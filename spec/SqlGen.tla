------------------------------ MODULE SqlGen -------------------------------
(* Texts and values to be written into statements. *)
EXTENDS SqlLex, Samples, Json

CONSTANTS Fam, MaxLen

\* what means something to the lexer, to identifiers or to neither
Alphabet == {0, 8, 9, 10, 13, 26, 32, 34, 39, 92, 96, 48, 90, 98, 110, 122, 37, 95, 36, 228, 65535, 65536, 8195}
Wide == Alphabet \cup {1, 11, 12, 27, 31, 33, 35, 45, 47, 64, 65, 91, 97, 114, 116, 123, 127, 128, 133, 160, 255, 256, 5760, 8191, 8192, 8202, 8203, 8232, 12288, 12289, 55295, 57344, 65279, 65533, 128150, 1114111}
Char(c) == c < 55296 \/ c > 57343
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
\* each character once, 64 at a time; each of the first ones at the end of a name
Blocks == {[fam |-> "block", n |-> n] : n \in {k \in 0..17407 : Char(64 * k)}}
Singles == {[fam |-> "single", n |-> n] : n \in 1..(IF MaxLen > 3 THEN 1114111 \div 16 ELSE 12800)}
Random(k) == TLCEval([i \in 1..(4 + (k % 60)) |-> IF RandomElement({TRUE, FALSE}) THEN RandomElement(Alphabet) ELSE RandomElement(Wide)])

\* long ones
Lens == {62, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000} \cup (IF MaxLen > 3 THEN {2000, 4095, 4096, 4097, 8193} ELSE {})
Pattern(p, i, n) ==
  CASE p = 1 -> 97 [] p = 2 -> 34 [] p = 3 -> 92 [] p = 4 -> IF i % 2 = 1 THEN 97 ELSE 96
    [] p = 5 -> <<0, 8, 9, 10, 13, 26, 32, 34, 39, 92, 96, 48, 90, 98, 110, 122, 37, 95, 36, 228, 65535, 65536, 8195>>[1 + (i % 23)]
    [] p = 6 -> IF i = 1 THEN 97 ELSE 32 [] p = 7 -> IF i = n THEN 98 ELSE 65536 [] p = 8 -> 0 [] p = 9 -> IF i = n THEN 39 ELSE 228
    [] p = 10 -> IF i = n THEN 92 ELSE 8195 [] p = 11 -> IF i = n THEN 96 ELSE 32 [] p = 12 -> IF i = n THEN 34 ELSE 128150
LongTexts == {[j \in 1..n |-> Pattern(p, j, n)] : n \in Lens, p \in 1..12}

VARIABLE case
Init ==
  case \in (CASE Fam = "texts" -> {[fam |-> "text", s |-> s] : s \in Texts}
              [] Fam = "long" -> {[fam |-> "text", s |-> s] : s \in LongTexts}
              [] Fam = "chars" -> Blocks \cup Singles
              [] Fam = "random" -> {[fam |-> "text", s |-> Random(k)] : k \in 1..Count}
              [] Fam = "values" -> {[fam |-> "value", v |-> v] : v \in Values}
              [] Fam = "floats" -> {[fam |-> "value", v |-> v] : v \in FloatValues})
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case

(******************************** what is checked of the lexer ********************************)
\* one way to write a string (and, for others, the shortest one that is read the same)
Quote(s) == <<39>> \o Cat([k \in 1..Len(s) |-> IF s[k] \in {39, 92} THEN <<92, s[k]>> ELSE <<s[k]>>]) \o <<39>>
QuoteName(s) == <<96>> \o Cat([k \in 1..Len(s) |-> IF s[k] = 96 THEN <<96, 96>> ELSE <<s[k]>>]) \o <<96>>
QuotedRead == case.fam = "text" => /\ IsString(Quote(case.s), FALSE) /\ StringOf(Quote(case.s), FALSE) = case.s
                                   /\ IsName(QuoteName(case.s)) /\ NameOf(QuoteName(case.s)) = case.s
\* without escapes a text with quotes or backslashes is read otherwise
Needed == case.fam = "text" => LET raw == <<39>> \o case.s \o <<39>>
                               IN (\E k \in 1..Len(case.s) : case.s[k] = 39 \/ (case.s[k] = 92 /\ (k = Len(case.s) \/ case.s[k + 1] \notin {37, 95}))) => ~(IsString(raw, FALSE) /\ StringOf(raw, FALSE) = case.s)
\* a name has neither blanks at its end nor what names can't have, and making a name of it again changes nothing
Names == case.fam = "text" => LET n == NameFor(case.s) IN NameFor(n) = n /\ (n # <<>> => ~Blank(n[Len(n)])) /\ \A k \in 1..Len(n) : InName(n[k])
\* numbers are read as what they were written for
IntsRead == case.fam = "value" /\ case.v[1] \in {"Tiny", "Short", "Int", "Long"} => DenotesInt(DecS(case.v[2]), DecS(case.v[2]))
\* the bytes of a number are not the number itself
FloatsDiffer == case.fam = "value" /\ case.v[1] \in {"Float", "Double"} =>
                  LET p == FloatParts(case.v[1], case.v[2]) IN p.m = <<>> \/ (~Denotes(case.v, <<48>>) /\ ~Denotes(case.v, Str("1e999")))
Emit == PrintT("@@" \o ToJson(case))
=============================================================================
