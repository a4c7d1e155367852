------------------------------- MODULE Values --------------------------------
(* Values: what the server stores, how both protocols carry it, and how parameters are sent.

   A value is a tagged tuple: <<"Null">>, <<"Tiny", le>> .. <<"ULong", le>> (numbers as little endian
   bytes), <<"Float", le>>, <<"Double", le>>, <<"Bytes", bytes>>, <<"Date", y, m, d>>,
   <<"Time", negative, days, hours, minutes, seconds, micros>>, <<"Datetime", y, m, d, h, i, s, micros>>.
   A cell is what a column has: type code t, unsigned u, fraction digits p, value v, text x (floats). *)
EXTENDS Numbers, FiniteSets, Json

(******************************** encodings ********************************)
Pad2(x) == <<48 + ((x \div 10) % 10), 48 + (x % 10)>>
Pad4(x) == Pad2(x \div 100) \o Pad2(x % 100)
Pad6(x) == Pad2(x \div 10000) \o Pad2((x \div 100) % 100) \o Pad2(x % 100)
Fraction(us, p) == IF p = 0 THEN <<>> ELSE <<46>> \o SubSeq(Pad6(us), 1, p)
DateText(y, m, d) == Pad4(y) \o <<45>> \o Pad2(m) \o <<45>> \o Pad2(d)
HourText(h) == IF h < 100 THEN Pad2(h) ELSE Digits(h)
ClockText(h, m, s, us, p) == HourText(h) \o <<58>> \o Pad2(m) \o <<58>> \o Pad2(s) \o Fraction(us, p)

\* text the server prints for a cell
TextOf(c) ==
  LET v == c.v IN
  CASE v[1] \in {"Tiny", "Short", "Int", "Long"} -> DecS(v[2])
    [] v[1] \in {"UTiny", "UShort", "UInt", "ULong"} -> DecU(v[2])
    [] v[1] \in {"Float", "Double"} -> Str(c.x)
    [] v[1] = "Bytes" -> v[2]
    [] v[1] = "Date" -> DateText(v[2], v[3], v[4])
    [] v[1] = "Datetime" -> DateText(v[2], v[3], v[4]) \o <<32>> \o ClockText(v[5], v[6], v[7], v[8], c.p)
    [] v[1] = "Time" -> (IF v[2] = 1 THEN <<45>> ELSE <<>>) \o ClockText(v[3] * 24 + v[4], v[5], v[6], v[7], c.p)

DateBin(y, m, d) == U16(y) \o <<m, d>>
\* binary form of a value (results and parameters)
BinOf(v) ==
  CASE v[1] \in {"Tiny", "Short", "Int", "Long", "UTiny", "UShort", "UInt", "ULong", "Float", "Double"} -> v[2]
    [] v[1] = "Bytes" -> LenStr(v[2])
    [] v[1] = "Date" -> IF v[2] = 0 /\ v[3] = 0 /\ v[4] = 0 THEN <<0>> ELSE <<4>> \o DateBin(v[2], v[3], v[4])
    [] v[1] = "Datetime" ->
         IF v[8] # 0 THEN <<11>> \o DateBin(v[2], v[3], v[4]) \o <<v[5], v[6], v[7]>> \o U32(v[8])
         ELSE IF v[5] # 0 \/ v[6] # 0 \/ v[7] # 0 THEN <<7>> \o DateBin(v[2], v[3], v[4]) \o <<v[5], v[6], v[7]>>
         ELSE IF v[2] # 0 \/ v[3] # 0 \/ v[4] # 0 THEN <<4>> \o DateBin(v[2], v[3], v[4])
         ELSE <<0>>
    [] v[1] = "Time" ->
         IF v[7] # 0 THEN <<12, v[2]>> \o U32(v[3]) \o <<v[4], v[5], v[6]>> \o U32(v[7])
         ELSE IF v[3] # 0 \/ v[4] # 0 \/ v[5] # 0 \/ v[6] # 0 THEN <<8, v[2]>> \o U32(v[3]) \o <<v[4], v[5], v[6]>>
         ELSE <<0>>

(* How the forms have to be understood; the invariants demand that this gives the value back. *)
At(s, c) == CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
Num(s) == FoldLeft(LAMBDA a, ch : a * 10 + ch - 48, 0, s)
MicrosOf(s) == IF s = <<>> THEN 0 ELSE Num([i \in 1..6 |-> IF i < Len(s) THEN s[i + 1] ELSE 48])
ClockOf(s) == LET k == At(s, 58) IN <<Num(SubSeq(s, 1, k - 1)), Num(SubSeq(s, k + 1, k + 2)), Num(SubSeq(s, k + 4, k + 5)), MicrosOf(SubSeq(s, k + 6, Len(s)))>>
FromText(tag, s) ==
  CASE tag \in {"Tiny"} -> <<tag, ParseS(s, 1)>> [] tag = "Short" -> <<tag, ParseS(s, 2)>> [] tag = "Int" -> <<tag, ParseS(s, 4)>> [] tag = "Long" -> <<tag, ParseS(s, 8)>>
    [] tag = "UTiny" -> <<tag, ParseU(s, 1)>> [] tag = "UShort" -> <<tag, ParseU(s, 2)>> [] tag = "UInt" -> <<tag, ParseU(s, 4)>> [] tag = "ULong" -> <<tag, ParseU(s, 8)>>
    [] tag = "Bytes" -> <<tag, s>>
    [] tag = "Date" -> <<tag, Num(SubSeq(s, 1, 4)), Num(SubSeq(s, 6, 7)), Num(SubSeq(s, 9, 10))>>
    [] tag = "Datetime" -> <<tag, Num(SubSeq(s, 1, 4)), Num(SubSeq(s, 6, 7)), Num(SubSeq(s, 9, 10))>> \o ClockOf(SubSeq(s, 12, Len(s)))
    [] tag = "Time" -> LET n == IF s[1] = 45 THEN 1 ELSE 0
                           c == ClockOf(SubSeq(s, n + 1, Len(s)))
                       IN <<tag, n, c[1] \div 24, c[1] % 24, c[2], c[3], c[4]>>
Le(b) == FoldRight(LAMBDA x, a : a * 256 + x, b, 0)
FromBin(tag, b) ==
  LET g(i, k) == IF Len(b) > i THEN Le(SubSeq(b, i + 1, i + k)) ELSE 0 IN
  CASE tag = "Date" -> <<tag, g(1, 2), g(3, 1), g(4, 1)>>
    [] tag = "Datetime" -> <<tag, g(1, 2), g(3, 1), g(4, 1), g(5, 1), g(6, 1), g(7, 1), g(8, 4)>>
    [] tag = "Time" -> <<tag, g(1, 1), g(2, 4), g(6, 1), g(7, 1), g(8, 1), g(9, 4)>>

\* a time of zero has no sign in the binary form
Canon(v) == IF v[1] = "Time" /\ \A i \in 3..7 : v[i] = 0 THEN [v EXCEPT ![2] = 0] ELSE v

(******************************** columns ********************************)
Cell(t, u, p, v, x) == [t |-> t, u |-> u, p |-> p, v |-> v, x |-> x]
IntTag == [w \in {1, 2, 4, 8} |-> [u \in BOOLEAN |->
   CASE w = 1 -> IF u THEN "UTiny" ELSE "Tiny" [] w = 2 -> IF u THEN "UShort" ELSE "Short" [] w = 4 -> IF u THEN "UInt" ELSE "Int" [] w = 8 -> IF u THEN "ULong" ELSE "Long"]]
IntCells(t, w, u) == [i \in 1..Len(Ints(w)) |-> Cell(t, u, 0, <<IntTag[w][u], Ints(w)[i]>>, "")]
\* years and 24 bit numbers are carried in wider numbers
YearCells == [i \in 1..4 |-> Cell(13, TRUE, 0, <<"UShort", U16(<<0, 1901, 1999, 2155>>[i])>>, "")]
Int24Cells(u) == [i \in 1..5 |-> Cell(9, u, 0, <<IntTag[4][u], IF u THEN <<U32(0), U32(1), U32(8388607), U32(8388608), U32(16777215)>>[i]
                                               ELSE <<U32(0), U32(8388607), Neg(U32(8388608)), Neg(U32(1)), U32(65536)>>[i]>>, "")]
FloatCells == [i \in 1..Len(Float32) |-> Cell(4, FALSE, 31, <<"Float", Float32[i][1]>>, Float32[i][2])]
DoubleCells == [i \in 1..Len(Float64) |-> Cell(5, FALSE, 31, <<"Double", Float64[i][1]>>, Float64[i][2])]
Fill(b, k) == [i \in 1..k |-> b]
ByteStrings == <<<<>>, <<0>>, <<251>>, <<254>>, <<255>>, <<252, 1, 2>>, <<0, 255, 39, 34, 92>>, <<195, 164>>, <<240, 159, 146, 150>>, <<45>>, Str("NULL"), Str("12"),
                 Fill(97, 250), Fill(98, 251), Fill(251, 252), Fill(0, 255), Fill(255, 256), Fill(65, 300)>>
BigByteStrings == <<Fill(99, 65535), Fill(254, 65536), Fill(100, 66000)>>
BytesTypes == {0, 15, 16, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255}
BytesCells(t) == [i \in 1..Len(ByteStrings) |-> Cell(t, FALSE, 0, <<"Bytes", ByteStrings[i]>>, "")]
BigCells(t) == [i \in 1..Len(BigByteStrings) |-> Cell(t, FALSE, 0, <<"Bytes", BigByteStrings[i]>>, "")]
Dates == <<<<0, 0, 0>>, <<1000, 1, 1>>, <<9999, 12, 31>>, <<2024, 2, 29>>, <<1970, 1, 1>>, <<2038, 1, 19>>, <<2024, 0, 0>>, <<1, 2, 3>>, <<256, 10, 11>>, <<255, 1, 0>>>>
DateCells == [i \in 1..Len(Dates) |-> Cell(10, FALSE, 0, <<"Date">> \o Dates[i], "")]
\* hour, minute, second, micros with the fraction digits of the column
Clocks(p) == LET f(us) == IF p = 0 THEN 0 ELSE us IN
  <<<<0, 0, 0, 0>>, <<23, 59, 59, f(<<900000, 990000, 999000, 999900, 999990, 999999>>[IF p = 0 THEN 1 ELSE p])>>,
    <<0, 0, 0, f(<<100000, 10000, 1000, 100, 10, 1>>[IF p = 0 THEN 1 ELSE p])>>, <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<12, 34, 56, f(500000)>>,
    <<10, 20, 30, f(<<200000, 120000, 123000, 123400, 123450, 123456>>[IF p = 0 THEN 1 ELSE p])>>>>
Pairs(A, B) == [i \in 1..(Len(A) * Len(B)) |-> <<A[((i - 1) \div Len(B)) + 1], B[((i - 1) % Len(B)) + 1]>>]
DatetimeCells(t, p) == LET ps == Pairs(Dates, Clocks(p)) IN [i \in 1..Len(ps) |-> Cell(t, FALSE, p, <<"Datetime">> \o ps[i][1] \o ps[i][2], "")]
Days == <<<<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 4>>, <<1, 34>>, <<0, 4>>, <<0, 34>>>>   \* sign, days
TimeCells(p) == LET ps == Pairs(Days, Clocks(p)) IN
  [i \in 1..Len(ps) |-> LET d == ps[i][1]  c == ps[i][2] IN
     Cell(11, FALSE, p, Canon(<<"Time", d[1], d[2], IF d[2] = 34 THEN c[1] % 23 ELSE c[1], c[2], c[3], c[4]>>), "")]

\* more of them: every day of a year (w), hours from w on with every number of fraction digits, times of a day
YearDays(y) == LET ps == Pairs([m \in 1..13 |-> m - 1], [d \in 1..32 |-> d - 1]) IN [i \in 1..Len(ps) |-> Cell(10, FALSE, 0, <<"Date", y, ps[i][1], ps[i][2]>>, "")]
Sixty == <<0, 1, 9, 10, 19, 50, 59>>
Pow10 == <<100000, 10000, 1000, 100, 10, 1>>
\* a number of micros that has p digits
Digs(k, p) == IF p = 0 THEN 0 ELSE ((k * 7919 + 1) % (10 ^ p)) * Pow10[p]
HourCells(h0, p) ==
  LET ps == Pairs(Pairs([h \in 1..12 |-> h0 + h - 1], Sixty), <<0, 1, 30, 59>>)
  IN [i \in 1..(2 * Len(ps)) |->
        LET x == ps[(i + 1) \div 2]  h == x[1][1] IN Cell(11, FALSE, p, Canon(<<"Time", i % 2, h \div 24, h % 24, x[1][2], x[2], Digs(i, p)>>), "")]
DayCells(t, y, p) ==
  LET ps == Pairs(Pairs([h \in 1..24 |-> h - 1], Sixty), Sixty)
  IN [i \in 1..Len(ps) |-> LET x == ps[i] IN Cell(t, FALSE, p, <<"Datetime", y, 1 + (i % 12), 1 + (i % 31), x[1][1], x[1][2], x[2], Digs(i, p)>>, "")]

\* what a plain or prepared query has in one column: by name
Column(name) ==
  CASE name.f = "int" -> IntCells(name.t, name.w, name.u)
    [] name.f = "year" -> YearCells
    [] name.f = "int24" -> Int24Cells(name.u)
    [] name.f = "float" -> FloatCells
    [] name.f = "double" -> DoubleCells
    [] name.f = "bytes" -> BytesCells(name.t)
    [] name.f = "big" -> BigCells(name.t)
    [] name.f = "date" -> DateCells
    [] name.f = "datetime" -> DatetimeCells(name.t, name.p)
    [] name.f = "time" -> TimeCells(name.p)
    [] name.f = "days" -> YearDays(name.w)
    [] name.f = "hours" -> HourCells(name.w, name.p)
    [] name.f = "clock" -> DayCells(name.t, name.w, name.p)
Nm(f, t, w, u, p) == [f |-> f, t |-> t, w |-> w, u |-> u, p |-> p]
WhenNames == {Nm("days", 10, y, FALSE, 0) : y \in {0, 1, 999, 1000, 2024, 9999}} \cup {Nm("hours", 11, h, FALSE, (h \div 12) % 7) : h \in {12 * k : k \in 0..3} \cup {94, 232, 827}}
             \cup {Nm("clock", t, y, FALSE, (y + t) % 7) : t \in {7, 12}, y \in {0, 1000, 2024, 9999}}
AllWhenNames == {Nm("days", 10, y, FALSE, 0) : y \in (0..30) \cup (990..1010) \cup (1890..2110) \cup {9990, 9999}} \cup {Nm("hours", 11, 12 * k, FALSE, p) : k \in 0..69, p \in 0..6}
             \cup {Nm("clock", t, y, FALSE, p) : t \in {7, 12}, y \in {0, 1, 1000, 1969, 2024, 2100, 9999}, p \in 0..6}
ColumnNames ==
  {Nm("int", x[1], x[2], u, 0) : x \in {<<1, 1>>, <<2, 2>>, <<3, 4>>, <<8, 8>>}, u \in BOOLEAN}
    \cup {Nm("year", 13, 2, TRUE, 0)} \cup {Nm("int24", 9, 4, u, 0) : u \in BOOLEAN}
    \cup {Nm("float", 4, 4, FALSE, 31), Nm("double", 5, 8, FALSE, 31), Nm("date", 10, 0, FALSE, 0)}
    \cup {Nm("bytes", t, 0, FALSE, 0) : t \in BytesTypes} \cup {Nm("big", t, 0, FALSE, 0) : t \in {252, 253}}
    \cup {Nm("datetime", t, 0, FALSE, p) : t \in {7, 12}, p \in 0..6} \cup {Nm("time", 11, 0, FALSE, p) : p \in 0..6}

NullCell(c) == [c EXCEPT !.v = <<"Null">>]
IsNull(c) == c.v[1] = "Null"

Signed(c) == IF c.u THEN 32 ELSE 0
\* YEAR is unsigned zerofill
FlagsOf(c) == Signed(c) + (IF c.t = 13 THEN 64 ELSE 0)

(******************************** rows ********************************)
\* many in a row
BigCat(ss) == LET s == TLCEval(ss) IN Cat([c \in 1..((Len(s) + 255) \div 256) |-> Cat(SubSeq(s, 256 * c - 255, IF 256 * c < Len(s) THEN 256 * c ELSE Len(s)))])
TextRow(cells) == BigCat([i \in 1..Len(cells) |-> IF IsNull(cells[i]) THEN <<251>> ELSE LenStr(TextOf(cells[i]))])
RECURSIVE Bits(_, _)
Bits(S, k) == IF k = 0 THEN 0 ELSE 2 * Bits({x - 1 : x \in S \ {0}}, k - 1) + (IF 0 \in S THEN 1 ELSE 0)
\* bitmap of n bits from an offset; S = set bits (0-based)
Bitmap(S, n, off) == LET len == (n + off + 7) \div 8 IN
  [j \in 1..len |-> LET s == {b \in 0..7 : (8 * (j - 1) + b - off) \in S} IN Bits(s, 8)]
BinRow(cells) == LET nulls == {i - 1 : i \in {j \in 1..Len(cells) : IsNull(cells[j])}} IN
  <<0>> \o Bitmap(nulls, Len(cells), 2) \o BigCat([i \in 1..Len(cells) |-> IF IsNull(cells[i]) THEN <<>> ELSE BinOf(cells[i].v)])

\* columns cover every kind of value
RowKinds == <<Nm("int", 1, 1, FALSE, 0), Nm("bytes", 253, 0, FALSE, 0), Nm("int", 8, 8, TRUE, 0), Nm("datetime", 12, 0, FALSE, 6), Nm("double", 5, 8, FALSE, 31),
              Nm("int", 2, 2, TRUE, 0), Nm("time", 11, 0, FALSE, 3), Nm("date", 10, 0, FALSE, 0), Nm("int", 3, 4, FALSE, 0), Nm("bytes", 252, 0, FALSE, 0), Nm("float", 4, 4, FALSE, 31)>>
RowColumns == [i \in 1..Len(RowKinds) |-> Column(RowKinds[i])]
RowCell(col, row) == LET k == ((col - 1) % Len(RowKinds)) + 1 IN RowColumns[k][((col * 7 + row * 3) % Len(RowColumns[k])) + 1]
\* NULL positions of the rows of a result with n columns
NullSets(n) ==
  IF n > 2000 THEN <<{}, {i \in 1..n : i % 2 = 0}, {i \in 1..n : i % 3 = 0 \/ i > n - 3}, {1, 8, 9, 16, n - 9, n - 1, n}>>
  ELSE (IF n <= 20 THEN [i \in 1..n |-> {i}] ELSE [i \in 1..8 |-> {<<1, 6, 7, 14, 15, n - 1, n, 64>>[i]} \cap (1..n)])
                 \o <<{}, 1..n, {i \in 1..n : i % 2 = 0}, {i \in 1..n : i % 2 = 1}, {i \in 1..n : i % 3 = 0}, 1..(n - 1), 2..n>>
RowOfCells(n, k) == LET ns == NullSets(n)[k] IN [i \in 1..n |-> IF i \in ns THEN NullCell(RowCell(i, k)) ELSE RowCell(i, k)]

(******************************** parameters ********************************)
TypeCode(v) == CASE v[1] = "Null" -> 6 [] v[1] \in {"Tiny", "UTiny"} -> 1 [] v[1] \in {"Short", "UShort"} -> 2 [] v[1] \in {"Int", "UInt"} -> 3
                 [] v[1] \in {"Long", "ULong"} -> 8 [] v[1] = "Float" -> 4 [] v[1] = "Double" -> 5 [] v[1] = "Bytes" -> 253 [] v[1] = "Date" -> 10
                 [] v[1] = "Time" -> 11 [] v[1] = "Datetime" -> 12
\* a date without time is sent alike; a zero date in its long form
ParamBin(v) == IF v[1] = "Date" THEN <<4>> \o DateBin(v[2], v[3], v[4]) ELSE BinOf(v)
ExecuteBody(id, vs) == <<23>> \o U32(id) \o <<0, 1, 0, 0, 0>> \o
  (IF vs = <<>> THEN <<>> ELSE
     Bitmap({i - 1 : i \in {j \in 1..Len(vs) : vs[j][1] = "Null"}}, Len(vs), 0) \o <<1>>
       \o BigCat([i \in 1..Len(vs) |-> <<TypeCode(vs[i]), IF vs[i][1] \in {"UTiny", "UShort", "UInt", "ULong"} THEN 128 ELSE 0>>])
       \o BigCat([i \in 1..Len(vs) |-> IF vs[i][1] = "Null" THEN <<>> ELSE ParamBin(vs[i])]))
ParamLists(n) == Len(NullSets(n))
ParamsOf(n, k) == LET ns == NullSets(n)[k] IN [i \in 1..n |-> IF i \in ns THEN <<"Null">> ELSE RowCell(i, k).v]

(******************************** behaviours ********************************)
CONSTANTS Fam, Widths
VARIABLE case

CallE(op, f) == [k |-> "call", op |-> op] @@ f
RetE(f) == [k |-> "ret"] @@ f
RE(body, seq) == [k |-> "r", b |-> Frame(body, seq)]
WE(body) == [k |-> "w", b |-> Frame(body, 0)]
None == [none |-> 0]
ColDef(c, name) == DefBody(<<>>, Str("t"), Str("t"), Str(name), Str(name), 63, 1024, c.t, FlagsOf(c), c.p)
Def4(c, i) == ColDef(c, "c" \o ToString(i))
ColRet(c, i) == [n |-> "c" \o ToString(i), on |-> "c" \o ToString(i), t |-> "t", ot |-> "t", ty |-> c.t, f |-> FlagsOf(c)]

PreparedEvents(np) ==
  <<CallE("prepare", [sql |-> "p"]), WE(<<22>> \o Str("p")), RE(<<0>> \o U32(9) \o U16(0) \o U16(np) \o <<0, 0, 0>>, 1)>>
    \o [i \in 1..np |-> RE(DefBody(<<>>, <<>>, <<>>, Str("?"), <<>>, 63, 0, 253, 128, 0), 1 + i)]
    \o <<RetE([stmt |-> 0])>>

\* a result with the given columns (one cell each tells the type) and rows of cells
Result(proto, cols, rows) ==
  LET n == Len(cols)
      body(r) == IF proto = "text" THEN TextRow(r) ELSE BinRow(r)
      want(r) == [i \in 1..n |-> Canon(r[i].v)]
  IN (IF proto = "text" THEN <<CallE("query", [sql |-> "q"]), WE(<<3>> \o Str("q"))>>
      ELSE PreparedEvents(0) \o <<CallE("squery", [params |-> <<>>]), WE(ExecuteBody(9, <<>>))>>)
     \o <<RE(LenEnc(n), 1)>> \o [i \in 1..n |-> RE(Def4(cols[i], i), 1 + i)]
     \o <<RetE([cols |-> [i \in 1..n |-> ColRet(cols[i], i)]])>>
     \o Cat([j \in 1..Len(rows) |-> <<CallE("next", None), RE(body(rows[j]), 1 + n + j), RetE([row |-> want(rows[j])])>>])
     \o <<CallE("next", None), RE(EofBody(FALSE, 2, 0), 2 + n + Len(rows)), RetE([row |-> "none"])>>

Events(c) ==
  CASE c.fam = "col" ->
        LET cells == TLCEval(Column(c.col))
        IN Result(c.proto, <<cells[1]>>, TLCEval([i \in 1..(Len(cells) + 1) |-> <<IF i > Len(cells) THEN NullCell(cells[1]) ELSE cells[i]>>]))
    [] c.fam = "row" -> Result(c.proto, [i \in 1..c.n |-> RowCell(i, 1)], [k \in 1..Len(NullSets(c.n)) |-> RowOfCells(c.n, k)])
    \* a column of type NULL
    [] c.fam = "nullcol" -> LET x == Cell(6, FALSE, 0, <<"Null">>, "") IN Result(c.proto, <<x, RowCell(1, 1)>>, <<<<x, RowCell(1, 1)>>>>)
    [] c.fam = "param" ->
        LET lists == IF c.n = 0 THEN <<<<>>>> ELSE [k \in 1..ParamLists(c.n) |-> ParamsOf(c.n, k)]
        IN PreparedEvents(c.n) \o Cat([k \in 1..Len(lists) |->
              <<CallE("sexec", [params |-> lists[k]]), WE(ExecuteBody(9, lists[k])), RE(OkBody(k, 0, 2, 0, <<>>), 1), RetE([ok |-> [ar |-> k]])>>])
    [] c.fam = "param1" ->
        LET cells == TLCEval(Column(c.col)) IN
        PreparedEvents(1) \o Cat([k \in 1..Len(cells) |->
              <<CallE("sexec", [params |-> <<cells[k].v>>]), WE(ExecuteBody(9, <<cells[k].v>>)), RE(OkBody(k, 0, 2, 0, <<>>), 1), RetE([ok |-> [ar |-> k]])>>])

Cases ==
  CASE Fam = "text" -> {[fam |-> "col", col |-> n, proto |-> "text"] : n \in ColumnNames}
                        \cup {[fam |-> "row", n |-> n, proto |-> "text"] : n \in Widths} \cup {[fam |-> "nullcol", proto |-> "text"]}
    [] Fam = "bin" -> {[fam |-> "col", col |-> n, proto |-> "bin"] : n \in ColumnNames}
                        \cup {[fam |-> "row", n |-> n, proto |-> "bin"] : n \in Widths} \cup {[fam |-> "nullcol", proto |-> "bin"]}
    [] Fam = "when" -> {[fam |-> "col", col |-> n, proto |-> p] : n \in WhenNames, p \in {"text", "bin"}}
    [] Fam = "allwhen" -> {[fam |-> "col", col |-> n, proto |-> p] : n \in AllWhenNames, p \in {"text", "bin"}}
    [] Fam = "wide" -> {[fam |-> "row", n |-> n, proto |-> p] : n \in Widths, p \in {"text", "bin"}} \cup {[fam |-> "param", n |-> n] : n \in Widths}
    [] Fam = "widest" -> {[fam |-> "param", n |-> n] : n \in Widths}
    [] Fam = "param" -> {[fam |-> "param1", col |-> n] : n \in ColumnNames} \cup {[fam |-> "param", n |-> n] : n \in Widths \cup {0}}

\* frames up to the limit only
Ok(ev) == \A i \in 1..Len(ev) : ev[i].k \in {"r", "w"} => Len(ev[i].b) < 16777219
Scenario == LET ev == Events(case) IN [opts |-> PreludeOpts, what |-> case, ev |-> Prelude(FALSE) \o ev]

Init == case \in Cases
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case
Emit == PrintT("@@" \o ToJson(Scenario))

(******************************** properties ********************************)
Named == IF case.fam \in {"col", "param1"} THEN Column(case.col) ELSE <<>>
\* the forms denote the value: reading them gives it back
TextRoundTrip == LET nm == Named IN \A i \in 1..Len(nm) : LET c == nm[i] IN
   c.v[1] \notin {"Float", "Double", "Null"} => Canon(FromText(c.v[1], TextOf(c))) = Canon(c.v)
BinRoundTrip == LET nm == Named IN \A i \in 1..Len(nm) : LET c == nm[i] IN
   c.v[1] \in {"Date", "Time", "Datetime"} => /\ FromBin(c.v[1], BinOf(c.v)) = Canon(c.v)
                                             /\ FromBin(c.v[1], ParamBin(c.v)) = Canon(c.v)
\* a row's first byte cannot be taken for the end of rows or an error
Distinguished == case.fam = "row" => \A k \in 1..Len(NullSets(case.n)) : LET r == RowOfCells(case.n, k) IN
   /\ BinRow(r)[1] = 0
   /\ TextRow(r)[1] \notin {255, 254}
=============================================================================
