------------------------------ MODULE Convert -------------------------------
(* Conversions between Rust values and database values.

   Database values are the tagged tuples of Values.tla.  Rust values are tagged tuples too: <<"i8", le>> .. <<"f64", le>>, <<"bool", 0/1>>,
   <<"String", bytes>>, <<"Vec", bytes>>, <<"Hex", bytes>>, <<"NaiveDate", y, m, d>>, <<"NaiveDateTime", y, m, d, h, i, s, us>>,
   <<"Duration", negative, days, h, m, s, us>> (days as bytes).                                                                       *)
EXTENDS Samples, Json

CONSTANT Fam

(******************************** types ********************************)
NumTag == [i8 |-> "Tiny", i16 |-> "Short", i32 |-> "Int", i64 |-> "Long", u8 |-> "UTiny", u16 |-> "UShort", u32 |-> "UInt", u64 |-> "ULong", f32 |-> "Float", f64 |-> "Double"]
Width == [i8 |-> 1, i16 |-> 2, i32 |-> 4, i64 |-> 8, u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, f32 |-> 4, f64 |-> 8]
NumTypes == DOMAIN NumTag
IntTags == {"Tiny", "Short", "Int", "Long", "UTiny", "UShort", "UInt", "ULong"}
ByteTypes == {"String", "Vec", "Hex"}
Types == NumTypes \cup ByteTypes \cup {"bool", "NaiveDate", "NaiveDateTime", "Duration"}

\* well-formed UTF-8: what is still to come after each byte
Utf8(b) ==
  LET step(a, c) ==
        CASE a.st = "bad" -> a
          [] a.n > 0 -> (IF c >= a.lo /\ c <= a.hi THEN [a EXCEPT !.n = @ - 1, !.lo = 128, !.hi = 191] ELSE [a EXCEPT !.st = "bad"])
          [] c < 128 -> a
          [] c >= 194 /\ c <= 223 -> [a EXCEPT !.n = 1]
          [] c = 224 -> [a EXCEPT !.n = 2, !.lo = 160]
          [] c = 237 -> [a EXCEPT !.n = 2, !.hi = 159]
          [] c >= 225 /\ c <= 239 -> [a EXCEPT !.n = 2]
          [] c = 240 -> [a EXCEPT !.n = 3, !.lo = 144]
          [] c = 244 -> [a EXCEPT !.n = 3, !.hi = 143]
          [] c >= 241 /\ c <= 243 -> [a EXCEPT !.n = 3]
          [] OTHER -> [a EXCEPT !.st = "bad"]
      r == FoldLeft(step, [st |-> "ok", n |-> 0, lo |-> 128, hi |-> 191], b)
  IN r.st = "ok" /\ r.n = 0

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysOf(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
OnCalendar(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysOf(y, m)
OnClock(h, m, s, us) == h < 24 /\ m < 60 /\ s < 60 /\ us < 1000000

(******************************** conversions ********************************)
\* what a Rust value becomes; <<>> if there is no such database value
ToValue(x) ==
  LET t == x[1] IN
  CASE t \in NumTypes -> <<NumTag[t], x[2]>>
    [] t = "bool" -> <<"Tiny", <<x[2]>>>>
    [] t \in ByteTypes -> <<"Bytes", x[2]>>
    [] t = "NaiveDate" -> (IF x[2] \in 0..65535 THEN <<"Date", x[2], x[3], x[4]>> ELSE <<>>)
    [] t = "NaiveDateTime" -> (IF x[2] \in 0..65535 THEN <<"Datetime", x[2], x[3], x[4], x[5], x[6], x[7], x[8]>> ELSE <<>>)
    [] t = "Duration" -> <<"Time", x[2], x[3], x[4], x[5], x[6], x[7]>>
Err == [r |-> "err", x |-> <<>>]
Is(x) == [r |-> "val", x |-> x]
\* an error or this
May(x) == [r |-> "may", x |-> x]
\* not covered
Free == [r |-> "any", x |-> <<>>]
\* what a database value is as t
FromValue(t, v) ==
  CASE t \in NumTypes -> (IF v[1] = NumTag[t] THEN Is(<<t, v[2]>>) ELSE Err)
    [] t = "bool" -> (IF v[1] \notin IntTags THEN Err ELSE IF AllZero(v[2]) THEN Is(<<t, 0>>) ELSE IF v[2][1] = 1 /\ AllZero(Tail(v[2])) THEN Is(<<t, 1>>) ELSE Free)
    [] t = "String" -> (IF v[1] = "Bytes" /\ Utf8(v[2]) THEN Is(<<t, v[2]>>) ELSE Err)
    [] t \in {"Vec", "Hex"} -> (IF v[1] = "Bytes" THEN Is(<<t, v[2]>>) ELSE Err)
    [] t = "NaiveDate" ->
         (IF v[1] = "Date" /\ OnCalendar(v[2], v[3], v[4]) THEN Is(<<t, v[2], v[3], v[4]>>)
          ELSE IF v[1] = "Datetime" /\ OnCalendar(v[2], v[3], v[4]) THEN May(<<t, v[2], v[3], v[4]>>) ELSE Err)
    [] t = "NaiveDateTime" -> (IF v[1] = "Datetime" /\ OnCalendar(v[2], v[3], v[4]) /\ OnClock(v[5], v[6], v[7], v[8]) THEN Is(<<t>> \o Tail(v)) ELSE Err)
    [] t = "Duration" -> (IF v[1] # "Time" THEN Err ELSE IF OnClock(v[4], v[5], v[6], v[7]) THEN Is(<<t>> \o Tail(v)) ELSE May(<<t>> \o Tail(v)))

(******************************** values ********************************)
Lead == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 237, 239, 240, 241, 243, 244, 245, 255}
Utf8Strings == {<<"Bytes", b>> : b \in UNION {[1..n -> Lead] : n \in 1..2}} \cup {<<"Bytes", <<a, b, c>>>> : a \in {194, 224, 237, 239, 240, 244, 65}, b \in Lead, c \in {65, 127, 128, 191, 192}}
               \cup {<<"Bytes", <<a, b, 128, c>>>> : a \in {240, 243, 244, 245, 65}, b \in {127, 128, 143, 144, 191, 192}, c \in {127, 128, 191, 192, 65}}
CalYears == {0, 1, 4, 100, 200, 400, 1582, 1900, 2000, 2023, 2024, 9999, 65535}
Calendar == {<<"Date", y, m, d>> : y \in CalYears, m \in 0..13, d \in {0, 1, 2, 15, 27, 28, 29, 30, 31, 32, 255}}
Clocks == {<<"Datetime", 2024, 2, 29, h, m, s, u>> : h \in {0, 1, 12, 23, 24, 255}, m \in {0, 59, 60, 255}, s \in {0, 58, 59, 60, 255}, u \in {0, 1, 10, 999, 1000, 123456, 999999}}
          \cup {<<"Datetime", y, m, d, 1, 2, 3, 4>> : y \in CalYears, m \in {0, 1, 2, 12, 13}, d \in {0, 1, 28, 29, 30, 31, 32}}
LongTimes == {<<"Time", n, d, h, m, s, u>> : n \in {0, 1}, d \in {<<0>>, <<1>>, <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}, h \in {0, 23, 24, 255}, m \in {0, 59, 60, 255}, s \in {0, 1, 59, 60, 255},
                u \in {0, 1, 999999, 1000000, 1000001}}
Back == {<<"Null">>} \cup IntValues \cup FloatValues \cup ByteValues \cup Utf8Strings \cup Calendar \cup Clocks \cup TimeValues \cup LongTimes

Nums == UNION {{<<t, b>> : b \in IntBytes(Width[t])} : t \in NumTypes \ {"f32", "f64"}} \cup {<<"f32", v[2]>> : v \in {w \in FloatValues : w[1] = "Float"}} \cup {<<"f64", v[2]>> : v \in {w \in FloatValues : w[1] = "Double"}}
        \cup {<<"f32", b>> : b \in {RandBytes(4) : k \in 1..Count}} \cup {<<"f64", b>> : b \in {RandBytes(8) : k \in 1..Count}}
Strings == {<<t, v[2]>> : t \in {"Vec", "Hex"}, v \in ByteValues} \cup {<<"String", v[2]>> : v \in {w \in ByteValues \cup Utf8Strings : Utf8(w[2])}}
RustDates == {<<"NaiveDate", v[2], v[3], v[4]>> : v \in {w \in Calendar : OnCalendar(w[2], w[3], w[4])}} \cup {<<"NaiveDate", y, 1, 1>> : y \in {0 - 262142, 0 - 65535, 0 - 1, 65536, 131072, 262141}}
RustDatetimes == {<<"NaiveDateTime">> \o Tail(v) : v \in {w \in Clocks : OnCalendar(w[2], w[3], w[4]) /\ OnClock(w[5], w[6], w[7], w[8])}}
                 \cup {<<"NaiveDateTime", y, 1, 1, 0, 0, 0, 1>> : y \in {0 - 262142, 0 - 1, 65536, 262141}}
RustDurations == {<<"Duration">> \o Tail(v) : v \in {w \in TimeValues \cup LongTimes : OnClock(w[4], w[5], w[6], w[7])}}
There == {<<"bool", 0>>, <<"bool", 1>>} \cup Nums \cup Strings \cup RustDates \cup RustDatetimes \cup RustDurations

(******************************** hexadecimal texts ********************************)
HexChars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 97, 98, 99, 100, 101, 102>>
Lower(b) == Cat([i \in 1..Len(b) |-> <<HexChars[(b[i] \div 16) + 1], HexChars[(b[i] % 16) + 1]>>])
UpperOf(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
HexCh(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
Nibble(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
\* the bytes a text means
HexText(s) ==
  LET t == IF Len(s) >= 2 /\ s[1] = 48 /\ s[2] \in {120, 88} THEN SubSeq(s, 3, Len(s)) ELSE s
  IN IF Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : HexCh(t[i]) THEN Is([i \in 1..(Len(t) \div 2) |-> Nibble(t[2 * i - 1]) * 16 + Nibble(t[2 * i])]) ELSE Err
HexAlphabet == {48, 57, 97, 102, 65, 70, 120, 88, 103, 71, 64, 58, 47, 96, 32}
HexTexts == UNION {[1..n -> HexAlphabet] : n \in 0..4}
            \cup UNION {{p \o Lower(v[2]), p \o UpperOf(Lower(v[2])), p \o Lower(v[2]) \o <<48>>, p \o p \o Lower(v[2])} : p \in {<<>>, <<48, 120>>, <<48, 88>>}, v \in {w \in ByteValues : Len(w[2]) # 2}}

(******************************** behaviours ********************************)
VARIABLE case
Init == case \in (CASE Fam = "there" -> {[fam |-> "there", x |-> x] : x \in There}
                    [] Fam = "back" -> {[fam |-> "back", x |-> v] : v \in Back}
                    [] Fam = "hex" -> {[fam |-> "hex", x |-> s] : s \in HexTexts})
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case

\* there and back again
RoundTrip == case.fam = "there" => LET v == ToValue(case.x) IN v # <<>> => FromValue(case.x[1], v) = Is(case.x)
\* nothing but NULL is None
NullOnly == case.fam = "there" => LET v == ToValue(case.x) IN v # <<>> => v # <<"Null">>
\* a value is something of at most these types
OneKind == case.fam = "back" => LET ok == {t \in Types : FromValue(t, case.x).r # "err"}
                                IN \/ ok \subseteq {"bool"} \cup {t \in NumTypes : NumTag[t] = case.x[1]}
                                   \/ ok \subseteq ByteTypes \/ ok \subseteq {"NaiveDate", "NaiveDateTime"} \/ ok \subseteq {"Duration"}
HexRoundTrip == case.fam = "hex" => LET h == HexText(case.x) IN h.r = "val" => HexText(<<48, 120>> \o Lower(h.x)) = h

Out ==
  CASE case.fam = "there" -> [fam |-> "there", x |-> case.x, v |-> ToValue(case.x)]
    [] case.fam = "back" -> [fam |-> "back", x |-> case.x, want |-> [t \in {u \in Types : FromValue(u, case.x).r # "err"} |-> FromValue(t, case.x)]]
    [] case.fam = "hex" -> [fam |-> "hex", x |-> case.x, want |-> HexText(case.x)]
Emit == PrintT("@@" \o ToJson(Out))
=============================================================================
