------------------------------ MODULE Numbers --------------------------------
(* Numbers beyond TLC's integers: little endian byte strings, their decimal texts, floats. *)
EXTENDS Wire

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0

\* long division of a big endian number by ten
Div10(be) == FoldLeft(LAMBDA acc, b : [q |-> Append(acc.q, (acc.r * 256 + b) \div 10), r |-> (acc.r * 256 + b) % 10], [q |-> <<>>, r |-> 0], be)
RECURSIVE DigitsBE(_)
DigitsBE(be) == LET d == Div10(be) IN IF AllZero(d.q) THEN <<48 + d.r>> ELSE Append(DigitsBE(d.q), 48 + d.r)

\* two's complement of a little endian number
Neg(le) == FoldLeft(LAMBDA acc, b : LET x == (255 - b) + acc.c IN [o |-> Append(acc.o, x % 256), c |-> x \div 256], [o |-> <<>>, c |-> 1], le).o
IsNeg(le) == le[Len(le)] >= 128

DecU(le) == DigitsBE(Rev(le))
DecS(le) == IF IsNeg(le) THEN <<45>> \o DigitsBE(Rev(Neg(le))) ELSE DecU(le)

\* value of a decimal text as little endian number of w bytes
MulAdd(le, d) == FoldLeft(LAMBDA acc, b : LET x == b * 10 + acc.c IN [o |-> Append(acc.o, x % 256), c |-> x \div 256], [o |-> <<>>, c |-> d], le)
ParseU(text, w) == FoldLeft(LAMBDA acc, ch : MulAdd(acc, ch - 48).o, Zeros(w), text)
ParseS(text, w) == IF text[1] = 45 THEN Neg(ParseU(Tail(text), w)) ELSE ParseU(text, w)

\* limits and other remarkable numbers of w bytes
Ones(w) == [i \in 1..w |-> 255]
Lim(w, hi, rest) == [i \in 1..w |-> IF i = w THEN hi ELSE rest]
Ints(w) == <<Zeros(w), Lim(w, 0, 0), [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0], Ones(w), [Ones(w) EXCEPT ![1] = 254], Lim(w, 127, 255), Lim(w, 128, 0), Lim(w, 128, 255),
             [i \in 1..w |-> i], [i \in 1..w |-> 255 - i], [i \in 1..w |-> IF i = 1 THEN 100 ELSE 0], [i \in 1..w |-> IF i = 1 THEN 156 ELSE 255],
             [i \in 1..w |-> 128], [i \in 1..w |-> IF i = w THEN 1 ELSE 0], [i \in 1..w |-> 251], [i \in 1..w |-> IF i = 1 THEN 10 ELSE 0]>>

\* bits of floats and the text the server prints for them (at most 6 digits; 17 digits)
Float32 == <<
  <<<<0, 0, 0, 0>>, "0">>,
  <<<<0, 0, 0, 128>>, "-0">>,
  <<<<0, 0, 128, 63>>, "1">>,
  <<<<0, 0, 128, 191>>, "-1">>,
  <<<<0, 0, 192, 63>>, "1.5">>,
  <<<<0, 0, 192, 191>>, "-1.5">>,
  <<<<205, 204, 204, 61>>, "0.1">>,
  <<<<154, 153, 153, 62>>, "0.3">>,
  <<<<244, 55, 161, 186>>, "-0.00123">>,
  <<<<0, 32, 241, 71>>, "123456">>,
  <<<<240, 35, 116, 201>>, "-999999">>,
  <<<<249, 2, 21, 80>>, "1e10">>,
  <<<<249, 2, 21, 208>>, "-1e10">>,
  <<<<255, 230, 219, 46>>, "1e-10">>,
  <<<<238, 255, 127, 127>>, "3.40282e38">>,
  <<<<238, 255, 127, 255>>, "-3.40282e38">>,
  <<<<225, 255, 127, 0>>, "1.17549e-38">>,
  <<<<1, 0, 0, 0>>, "1e-45">>,
  <<<<240, 255, 127, 75>>, "16777200">>,
  <<<<208, 15, 73, 64>>, "3.14159">>>>
Float64 == <<
  <<<<0, 0, 0, 0, 0, 0, 0, 0>>, "0">>,
  <<<<0, 0, 0, 0, 0, 0, 0, 128>>, "-0">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 63>>, "1">>,
  <<<<0, 0, 0, 0, 0, 0, 240, 191>>, "-1">>,
  <<<<0, 0, 0, 0, 0, 0, 224, 63>>, "0.5">>,
  <<<<154, 153, 153, 153, 153, 153, 185, 63>>, "0.1">>,
  <<<<154, 153, 153, 153, 153, 153, 201, 63>>, "0.2">>,
  <<<<52, 51, 51, 51, 51, 51, 211, 63>>, "0.30000000000000004">>,
  <<<<0, 0, 128, 84, 52, 111, 157, 65>>, "123456789.125">>,
  <<<<0, 0, 0, 0, 0, 0, 64, 195>>, "-9007199254740993">>,
  <<<<0, 128, 224, 55, 121, 195, 65, 67>>, "1e16">>,
  <<<<0, 0, 52, 38, 245, 107, 12, 67>>, "1e15">>,
  <<<<72, 175, 188, 154, 242, 215, 122, 190>>, "-1e-7">>,
  <<<<255, 255, 255, 255, 255, 255, 239, 127>>, "1.7976931348623157e308">>,
  <<<<255, 255, 255, 255, 255, 255, 239, 255>>, "-1.7976931348623157e308">>,
  <<<<0, 0, 0, 0, 0, 0, 16, 0>>, "2.2250738585072014e-308">>,
  <<<<1, 0, 0, 0, 0, 0, 0, 0>>, "5e-324">>,
  <<<<156, 117, 0, 136, 60, 228, 55, 126>>, "1e300">>,
  <<<<89, 243, 248, 194, 31, 110, 165, 129>>, "-1e-300">>,
  <<<<24, 45, 68, 84, 251, 33, 9, 64>>, "3.141592653589793">>,
  <<<<102, 102, 102, 102, 102, 102, 17, 64>>, "4.35">>,
  <<<<0, 0, 0, 0, 0, 0, 89, 64>>, "100">>,
  <<<<146, 213, 77, 6, 207, 240, 128, 68>>, "1e22">>,
  <<<<218, 188, 4, 126, 58, 197, 26, 68>>, "123456789012345680000">>>>
=============================================================================
