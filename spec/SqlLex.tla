------------------------------ MODULE SqlLex --------------------------------
(* How the server reads literals and identifiers (default SQL mode).  Texts are sequences of code points. *)
EXTENDS Numbers

(******************************** quoted tokens ********************************)
\* what a backslash and a character stand for
Unescape(ch, zed) ==
  CASE ch = 48 -> <<0>> [] ch = 98 -> <<8>> [] ch = 110 -> <<10>> [] ch = 114 -> <<13>> [] ch = 116 -> <<9>> [] ch = 90 -> <<26>>
    [] ch = 122 -> (IF zed THEN <<26>> ELSE <<122>>)
    [] ch \in {37, 95} -> <<92, ch>>
    [] OTHER -> <<ch>>
\* the whole of s as one token between quotes q: its content, or that there is none.
\* (with zed, \z stands for SUB as well, which the server doesn't know.)
Quoted(s, q, esc, zed) ==
  LET step(a, ch) ==
        CASE a.st = "in" -> (IF esc /\ ch = 92 THEN [a EXCEPT !.st = "esc"] ELSE IF ch = q THEN [a EXCEPT !.st = "end"] ELSE [a EXCEPT !.val = Append(@, ch)])
          [] a.st = "esc" -> [st |-> "in", val |-> a.val \o Unescape(ch, zed)]
          \* a doubled quote; anything else isn't part of the token
          [] a.st = "end" -> (IF ch = q THEN [st |-> "in", val |-> Append(a.val, ch)] ELSE [a EXCEPT !.st = "bad"])
          [] OTHER -> a
  IN IF s = <<>> \/ s[1] # q THEN [ok |-> FALSE, val |-> <<>>]
     ELSE LET r == FoldLeft(step, [st |-> "in", val |-> <<>>], Tail(s)) IN [ok |-> r.st = "end", val |-> r.val]
IsString(s, zed) == s # <<>> /\ s[1] \in {34, 39} /\ Quoted(s, s[1], TRUE, zed).ok
StringOf(s, zed) == Quoted(s, s[1], TRUE, zed).val
IsName(s) == Quoted(s, 96, FALSE, FALSE).ok
NameOf(s) == Quoted(s, 96, FALSE, FALSE).val

(******************************** identifiers ********************************)
Blanks == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Blank(ch) == ch \in Blanks
InName(ch) == ch >= 1 /\ ch <= 65535
Bare(ch) == (ch >= 48 /\ ch <= 57) \/ (ch >= 97 /\ ch <= 122) \/ (ch >= 65 /\ ch <= 90) \/ ch \in {36, 95} \/ (ch >= 128 /\ ch <= 65535)
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s = <<>> \/ ~Blank(s[Len(s)]) THEN s ELSE TrimEnd(SubSeq(s, 1, Len(s) - 1))
NameFor(s) == TrimEnd(SelectSeq(s, InName))

(******************************** big numbers: base 10000, low limbs first, no high zeros ********************************)
RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Carry(c \div 10000)
\* a * k + c for small k and c
MulS(a, k, c) ==
  LET r == FoldLeft(LAMBDA acc, x : LET y == x * k + acc.c IN [o |-> Append(acc.o, y % 10000), c |-> y \div 10000], [o |-> <<>>, c |-> c], a)
  IN r.o \o Carry(r.c)
RECURSIVE Shl(_, _)
Shl(a, n) == IF n = 0 \/ a = <<>> THEN a ELSE IF n >= 16 THEN Shl(MulS(a, 65536, 0), n - 16) ELSE Shl(MulS(a, 2, 0), n - 1)
Mul10(a, n) == IF a = <<>> THEN a ELSE [i \in 1..(n \div 4) |-> 0] \o MulS(a, <<1, 10, 100, 1000>>[(n % 4) + 1], 0)
Add(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      r == FoldLeft(LAMBDA acc, i : LET y == (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0) + acc.c
                                    IN [o |-> Append(acc.o, y % 10000), c |-> y \div 10000], [o |-> <<>>, c |-> 0], [i \in 1..n |-> i])
  IN r.o \o Carry(r.c)
\* a <= b, a = b
Leq(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET d == {i \in 1..Len(a) : a[i] # b[i]} IN IF d = {} THEN TRUE ELSE LET k == CHOOSE i \in d : \A j \in d : j <= i IN a[k] < b[k]
OfDigits(ds) == FoldLeft(LAMBDA a, ch : MulS(a, 10, ch - 48), <<>>, ds)
OfBytes(le) == FoldRight(LAMBDA b, a : MulS(a, 256, b), le, <<>>)

(******************************** numbers ********************************)
Digit(ch) == ch >= 48 /\ ch <= 57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
At1(s, S) == LET at == {i \in 1..Len(s) : s[i] \in S} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
Unsigned(s) == IF s # <<>> /\ s[1] = 45 THEN Tail(s) ELSE s
Minus(s) == s # <<>> /\ s[1] = 45
Small(s) == FoldLeft(LAMBDA a, ch : a * 10 + ch - 48, 0, s)
\* a number: its digits, how many of them are behind the point, and the exponent
NumberOf(s) ==
  LET u == Unsigned(s)
      e == At1(u, {101, 69})
      mant == IF e = 0 THEN u ELSE SubSeq(u, 1, e - 1)
      ex == IF e = 0 THEN <<>> ELSE SubSeq(u, e + 1, Len(u))
      exu == IF ex # <<>> /\ ex[1] \in {43, 45} THEN Tail(ex) ELSE ex
      p == At1(mant, {46})
      whole == IF p = 0 THEN mant ELSE SubSeq(mant, 1, p - 1)
      frac == IF p = 0 THEN <<>> ELSE SubSeq(mant, p + 1, Len(mant))
      ok == /\ whole \o frac # <<>> /\ AllDigits(whole \o frac)
            /\ e # 0 => AllDigits(exu) /\ Len(exu) <= 4
            \* without exponent it is a decimal
            /\ e = 0 => Len(frac) <= 30 /\ Len(whole) + Len(frac) <= 65
  IN [ok |-> ok, neg |-> Minus(s), digits |-> whole \o frac, frac |-> Len(frac), point |-> p # 0 \/ e # 0,
      exp |-> IF ok /\ e # 0 THEN (IF ex[1] = 45 THEN 0 - Small(exu) ELSE Small(exu)) - Len(frac) ELSE 0 - Len(frac)]
\* digits * 10^exp is nearer to m * 2^e (m has 'hidden' as its lowest number of full size) than to any other of these floats
Nearest(n, m, e, even, lowest) ==
  LET pos10 == IF n.exp > 0 THEN n.exp ELSE 0
      neg10 == IF n.exp < 0 THEN 0 - n.exp ELSE 0
      pos2 == IF e - 2 > 0 THEN e - 2 ELSE 0
      neg2 == IF e - 2 < 0 THEN 2 - e ELSE 0
      x == Shl(Mul10(OfDigits(n.digits), pos10), neg2)
      f(k) == Shl(Mul10(k, neg10), pos2)
      m4 == MulS(m, 4, 0)
      hi == f(Add(m4, <<2>>))
      lo == f(m4)
      xlo == Add(x, f(IF lowest THEN <<1>> ELSE <<2>>))
  IN /\ Leq(x, hi) /\ (x = hi => even)
     /\ Leq(lo, xlo) /\ (xlo = lo => even \/ lowest)
FloatParts(tag, le) ==
  IF tag = "Float" THEN
    LET e == le[3] \div 128 + (le[4] % 128) * 2  f == <<le[1], le[2], le[3] % 128>>
    IN [neg |-> le[4] >= 128, e |-> IF e = 0 THEN 0 - 149 ELSE e - 150, m |-> OfBytes(IF e = 0 THEN f ELSE [f EXCEPT ![3] = @ + 128]), even |-> le[1] % 2 = 0,
        lowest |-> e > 1 /\ AllZero(f)]
  ELSE
    LET e == le[7] \div 16 + (le[8] % 128) * 16  f == SubSeq(le, 1, 6) \o <<le[7] % 16>>
    IN [neg |-> le[8] >= 128, e |-> IF e = 0 THEN 0 - 1074 ELSE e - 1075, m |-> OfBytes(IF e = 0 THEN f ELSE [f EXCEPT ![7] = @ + 16]), even |-> le[1] % 2 = 0,
        lowest |-> e > 1 /\ AllZero(f)]
DenotesFloat(tag, le, s) ==
  LET n == NumberOf(s)  p == FloatParts(tag, le)
  IN n.ok /\ (p.m # <<>> => n.neg = p.neg) /\ Nearest(n, p.m, p.e, p.even, p.lowest)
\* digits without leading zeros
Strip(ds) == LET nz == {i \in 1..Len(ds) : ds[i] # 48} IN IF nz = {} THEN <<48>> ELSE SubSeq(ds, CHOOSE i \in nz : \A j \in nz : i <= j, Len(ds))
DenotesInt(text, s) ==
  /\ AllDigits(Unsigned(s))
  /\ Strip(Unsigned(s)) = Unsigned(text)
  /\ (Unsigned(text) # <<48>> => Minus(s) = Minus(text))

(******************************** byte strings ********************************)
HexDigit(ch) == Digit(ch) \/ (ch >= 65 /\ ch <= 70) \/ (ch >= 97 /\ ch <= 102)
HexVal(ch) == IF Digit(ch) THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87
BytesOf(h) == [i \in 1..(Len(h) \div 2) |-> HexVal(h[2 * i - 1]) * 16 + HexVal(h[2 * i])]
AllHex(h) == \A i \in 1..Len(h) : HexDigit(h[i])
DenotesBytes(b, s) ==
  \* 0x.. has at least one digit, and an even number of them is as good as one more zero
  \/ /\ Len(s) > 2 /\ s[1] = 48 /\ s[2] = 120
     /\ LET h == SubSeq(s, 3, Len(s)) IN AllHex(h) /\ BytesOf(IF Len(h) % 2 = 1 THEN <<48>> \o h ELSE h) = b
  \/ /\ Len(s) >= 3 /\ s[1] \in {120, 88} /\ s[2] = 39 /\ s[Len(s)] = 39
     /\ LET h == SubSeq(s, 3, Len(s) - 1) IN AllHex(h) /\ Len(h) % 2 = 0 /\ BytesOf(h) = b

(******************************** dates and times ********************************)
IsDate(t) == Len(t) = 10 /\ t[5] = 45 /\ t[8] = 45 /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10} : Digit(t[i])
DateOf(t) == <<Small(SubSeq(t, 1, 4)), Small(SubSeq(t, 6, 7)), Small(SubSeq(t, 9, 10))>>
\* hours (a big number), minutes, seconds, micros
IsClock(t) ==
  LET k == At1(t, {58})
      r == SubSeq(t, k + 1, Len(t))
  IN /\ k > 1 /\ AllDigits(SubSeq(t, 1, k - 1))
     /\ Len(r) >= 5 /\ r[3] = 58 /\ \A i \in {1, 2, 4, 5} : Digit(r[i])
     /\ Len(r) > 5 => r[6] = 46 /\ Len(r) \in 7..12 /\ AllDigits(SubSeq(r, 7, Len(r)))
ClockOf(t) ==
  LET k == At1(t, {58})
      r == SubSeq(t, k + 1, Len(t))
  IN <<OfDigits(SubSeq(t, 1, k - 1)), Small(SubSeq(r, 1, 2)), Small(SubSeq(r, 4, 5)),
       IF Len(r) = 5 THEN 0 ELSE Small([i \in 1..6 |-> IF 6 + i <= Len(r) THEN r[6 + i] ELSE 48])>>
DenotesDate(v, s) == IsString(s, FALSE) /\ LET t == StringOf(s, FALSE) IN IsDate(t) /\ DateOf(t) = <<v[2], v[3], v[4]>>
DenotesDatetime(v, s) ==
  IsString(s, FALSE) /\
    LET t == StringOf(s, FALSE)  c == SubSeq(t, 12, Len(t))
    IN /\ Len(t) >= 19 /\ IsDate(SubSeq(t, 1, 10)) /\ t[11] \in {32, 84} /\ IsClock(c)
       /\ DateOf(SubSeq(t, 1, 10)) = <<v[2], v[3], v[4]>> /\ ClockOf(c) = <<Carry(v[5]), v[6], v[7], v[8]>>
\* v: negative, days (bytes), hours, minutes, seconds, micros
DenotesTime(v, s) ==
  IsString(s, FALSE) /\
    LET t == StringOf(s, FALSE)  c == Unsigned(t)  hours == MulS(OfBytes(v[3]), 24, v[4])
    IN /\ IsClock(c) /\ ClockOf(c) = <<hours, v[5], v[6], v[7]>>
       /\ (hours # <<>> \/ v[5] # 0 \/ v[6] # 0 \/ v[7] # 0) => Minus(t) = (v[2] = 1)

Upper(s) == [i \in 1..Len(s) |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]
\* s is one literal of that value
Denotes(v, s) ==
  CASE v[1] = "Null" -> Upper(s) = Str("NULL")
    [] v[1] \in {"Tiny", "Short", "Int", "Long"} -> DenotesInt(DecS(v[2]), s)
    [] v[1] \in {"UTiny", "UShort", "UInt", "ULong"} -> DenotesInt(DecU(v[2]), s)
    [] v[1] \in {"Float", "Double"} -> DenotesFloat(v[1], v[2], s)
    [] v[1] = "Bytes" -> DenotesBytes(v[2], s)
    [] v[1] = "Date" -> DenotesDate(v, s)
    [] v[1] = "Datetime" -> DenotesDatetime(v, s)
    [] v[1] = "Time" -> DenotesTime(v, s)
=============================================================================
