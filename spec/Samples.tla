------------------------------ MODULE Samples -------------------------------
(* Database values: the remarkable ones of every kind and some others. *)
EXTENDS Numbers, FiniteSets

CONSTANT Count

(******************************** values ********************************)
SignedTag == [w \in {1, 2, 4, 8} |-> CASE w = 1 -> "Tiny" [] w = 2 -> "Short" [] w = 4 -> "Int" [] w = 8 -> "Long"]
UnsignedTag == [w \in {1, 2, 4, 8} |-> CASE w = 1 -> "UTiny" [] w = 2 -> "UShort" [] w = 4 -> "UInt" [] w = 8 -> "ULong"]
RandBytes(n) == TLCEval([i \in 1..n |-> RandomElement(0..255)])
IntBytes(w) ==
  {Ints(w)[i] : i \in 1..Len(Ints(w))} \cup {[i \in 1..w |-> IF i = k THEN b ELSE f] : k \in 1..w, b \in {1, 9, 10, 99, 100, 127, 128, 200, 255}, f \in {0, 255}}
  \cup {RandBytes(w) : k \in 1..Count}
IntValues == UNION {{<<SignedTag[w], b>> : b \in IntBytes(w)} \cup {<<UnsignedTag[w], b>> : b \in IntBytes(w)} : w \in {1, 2, 4, 8}}
             \cup {<<"Tiny", <<b>>>> : b \in 0..255} \cup {<<"UTiny", <<b>>>> : b \in 0..255}
\* fields of floats; exponents that are all ones are no numbers
F32(s, e, m) == <<"Float", <<m[1], m[2], (m[3] % 128) + 128 * (e % 2), s * 128 + e \div 2>>>>
F64(s, e, m) == <<"Double", <<m[1], m[2], m[3], m[4], m[5], m[6], (m[7] % 16) + 16 * (e % 16), s * 128 + e \div 16>>>>
Mants(n) == {[i \in 1..n |-> 0], [i \in 1..n |-> 255], [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0], [i \in 1..n |-> IF i = n THEN 8 ELSE 0], [i \in 1..n |-> 153], [i \in 1..n |-> IF i = n THEN 64 ELSE 0]}
\* numbers around the powers of ten at which the way of printing changes
Tens == {<<"Double", <<0, 128, 224, 55, 121, 195, 65, 67>>>>, <<"Double", <<255, 127, 224, 55, 121, 195, 65, 67>>>>, <<"Double", <<0, 0, 0, 0, 0, 0, 64, 67>>>>,
         <<"Double", <<45, 67, 28, 235, 226, 54, 26, 63>>>>, <<"Double", <<241, 104, 227, 136, 181, 248, 228, 62>>>>, <<"Double", <<72, 175, 188, 154, 242, 215, 122, 62>>>>,
         <<"Float", <<202, 27, 14, 90>>>>, <<"Float", <<201, 27, 14, 90>>>>, <<"Float", <<172, 197, 39, 55>>>>, <<"Float", <<23, 183, 209, 56>>>>, <<"Float", <<32, 188, 190, 76>>>>}
FloatValues ==
  {F32(s, e, m) : s \in {0, 1}, e \in {0, 1, 2, 60, 100, 110, 120, 126, 127, 128, 140, 149, 150, 151, 157, 180, 200, 253, 254}, m \in Mants(3)}
  \cup {F64(s, e, m) : s \in {0, 1}, e \in {0, 1, 2, 500, 900, 1000, 1020, 1022, 1023, 1024, 1050, 1074, 1075, 1076, 1080, 1100, 1500, 2045, 2046}, m \in Mants(7)}
  \cup Tens
  \cup {F32(0, RandomElement(0..254), RandBytes(3)) : k \in 1..(4 * Count)} \cup {F64(1, RandomElement(0..2046), RandBytes(7)) : k \in 1..Count}
  \cup {F64(0, RandomElement(960..1100), RandBytes(7)) : k \in 1..(2 * Count)}
ByteValues ==
  {<<"Bytes", b>> : b \in UNION {[1..n -> {0, 1, 9, 10, 15, 16, 34, 39, 92, 128, 159, 160, 255}] : n \in 0..2}} \cup {<<"Bytes", <<b>>>> : b \in 0..255}
  \cup {<<"Bytes", RandBytes(n)>> : n \in (3..(40 + Count \div 10)) \cup {127, 128, 255, 256, 257, 1000, 4097}}
Years == {0, 1, 9, 10, 99, 100, 999, 1000, 1583, 1999, 2000, 2024, 9999}
Micros == {0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 123456, 120000, 500000, 999999}
DateValues == {<<"Date", y, m, d>> : y \in Years, m \in 0..12, d \in {0, 1, 2, 9, 10, 11, 28, 29, 30, 31}}
DatetimeValues ==
  {<<"Datetime", y, m, d, h, 0, 0, 0>> : y \in Years, m \in {0, 1, 9, 10, 12}, d \in {0, 1, 9, 10, 31}, h \in {0, 7}}
  \cup {<<"Datetime", 2024, 2, 29, h, m, s, u>> : h \in {0, 1, 9, 10, 23}, m \in {0, 9, 10, 59}, s \in {0, 9, 10, 59}, u \in Micros}
TimeValues ==
  {<<"Time", n, d, h, m, s, u>> : n \in {0, 1}, d \in {<<0>>, <<1>>, <<4>>, <<34>>, <<42>>}, h \in {0, 1, 3, 4, 9, 10, 22, 23}, m \in {0, 9, 59}, s \in {0, 10, 59}, u \in {0, 1, 120, 500000, 999999}}
  \cup {<<"Time", n, d, 23, 0, 9, u>> : n \in {0, 1}, d \in {<<5>>, <<41>>, <<255>>, <<0, 1>>, <<255, 255>>, <<0, 0, 1>>, <<170, 170, 170, 10>>, <<85, 85, 85, 5>>, <<255, 255, 255, 127>>, <<255, 255, 255, 255>>}, u \in Micros}
Values == {<<"Null">>} \cup IntValues \cup ByteValues \cup DateValues \cup DatetimeValues \cup TimeValues

=============================================================================
