------------------------------- MODULE Models -------------------------------
(* Records and their tables.

   A model has a table, a primary key and fields: plain ones (a column each), embedded structures (several columns
   `field_alias`) and references (a column that holds the key of a record of another model).

   Fam = "query": which columns the query of a model selects, which tables it joins under which names, and which column
   of any result belongs to which field.
   Fam = "save": which statements saving a record issues, for every choice of fields that are set.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Fam, Models, Full, MaxFault, MaxPerm, MaxSwap

F(n) == [n |-> n, opt |-> FALSE]
O(n) == [n |-> n, opt |-> TRUE]
R(n, m) == [n |-> n, m |-> m]
G(n, cols) == [n |-> n, cols |-> cols]

Model(n) ==
  CASE n = "Tag" -> [table |-> "tag", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), F("name"), O("note")>>, g |-> <<>>, r |-> <<>>]
    [] n = "Zone" -> [table |-> "zone", pk |-> "key", ai |-> FALSE, f |-> <<F("name"), F("key")>>, g |-> <<>>, r |-> <<R("tag", "Tag")>>]
    [] n = "Map" -> [table |-> "map", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), F("name"), F("difficulty"), O("last_played")>>, g |-> <<>>, r |-> <<R("zone", "Zone")>>]
    [] n = "Entity" -> [table |-> "entity", pk |-> "id", ai |-> TRUE,
                        f |-> <<F("id"), F("name"), F("heading"), F("spawn_after")>>,
                        g |-> <<G("position", <<"x", "y", "z">>), G("size", <<"width", "height">>)>>,
                        r |-> <<R("map", "Map"), R("home", "Map"), R("tag", "Tag")>>]
    \* references that are named like tables and like each other
    [] n = "Own" -> [table |-> "own", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), F("tag")>>, g |-> <<>>, r |-> <<R("own", "Tag")>>]
    [] n = "Owner" -> [table |-> "own", pk |-> "id", ai |-> FALSE, f |-> <<F("id"), O("name")>>, g |-> <<>>, r |-> <<R("own", "Own"), R("owner", "Tag")>>]
    [] n = "Prefix" -> [table |-> "a", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), F("b")>>, g |-> <<G("c", <<"a", "b">>)>>,
                        r |-> <<R("ab", "Tag"), R("a", "Tag"), R("a_b", "Tag"), R("abc", "Own")>>]
    \* one table at every level, with equal names
    [] n = "Node4" -> [table |-> "node", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), O("name")>>, g |-> <<>>, r |-> <<>>]
    [] n = "Node3" -> [table |-> "node", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), O("name")>>, g |-> <<>>, r |-> <<R("next", "Node4")>>]
    [] n = "Node2" -> [table |-> "node", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), O("name")>>, g |-> <<>>, r |-> <<R("next", "Node3"), R("node", "Node4")>>]
    [] n = "Node1" -> [table |-> "node", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), O("name")>>, g |-> <<>>, r |-> <<R("next", "Node2")>>]
    \* nothing but the key and a structure
    [] n = "Bare" -> [table |-> "bare", pk |-> "id", ai |-> TRUE, f |-> <<F("id")>>, g |-> <<G("position", <<"x", "y", "z">>)>>, r |-> <<>>]
    [] n = "Key" -> [table |-> "key", pk |-> "id", ai |-> FALSE, f |-> <<F("id")>>, g |-> <<>>, r |-> <<>>]
    [] n = "Link" -> [table |-> "link", pk |-> "id", ai |-> TRUE, f |-> <<F("id")>>, g |-> <<>>, r |-> <<R("from_key", "Key"), R("to_key", "Key"), R("bare", "Bare")>>]
    \* names that are not the usual ones: keywords, capitals, underscores, blanks and dots; "~" stands for a letter beyond ASCII
    [] n = "Odd" -> [table |-> "Odd T~ble-1", pk |-> "Id", ai |-> TRUE,
                     f |-> <<F("type"), F("Id"), F("camelCase"), O("camelcase_"), O("_lead"), F("gr~~e"), F("__")>>,
                     g |-> <<G("in", <<"type", "GR~~E", "_w">>)>>, r |-> <<R("ref", "Tag"), R("Stra~e", "Tag")>>]
    [] n = "Odder" -> [table |-> "odd.t~ble", pk |-> "Stra~e", ai |-> FALSE, f |-> <<F("Stra~e")>>, g |-> <<>>,
                       r |-> <<R("odd", "Odd"), R("Odd", "Tag"), R("loop", "Odd"), R("gr~~e", "Zone"), R("gr~~er", "Tag")>>]
    \* types written with their paths
    [] n = "Paths" -> [table |-> "paths", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), F("text"), O("bytes"), F("day"), O("span"), F("hex"), O("at")>>,
                       g |-> <<G("pair", <<"a", "b">>)>>, r |-> <<>>]
    \* names as long as they may be, so that those of records are much longer
    [] n = "Far2" -> [table |-> "things_that_have_a_very_long_name_number_two_of_all_the_tables_x", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), F("a_column_with_a_name_that_is_as_long_as_any_name_may_ever_get_a1"), O("a_column_with_a_name_that_is_as_long_as_any_name_may_ever_get_a2")>>, g |-> <<>>, r |-> <<R("tag", "Tag")>>]
    [] n = "Far" -> [table |-> "things_that_have_a_very_long_name_number_one_of_all_the_tables_x", pk |-> "id", ai |-> TRUE, f |-> <<F("id"), F("a_column_with_a_name_that_is_as_long_as_any_name_may_ever_get_a1")>>, g |-> <<>>, r |-> <<R("the_column_that_refers_to_the_second_of_the_long_named_tables_a", "Far2"), R("the_column_that_refers_to_the_second_of_the_long_named_tables_b", "Far2")>>]
    \* very many fields
    [] n = "Wide" -> [table |-> "wide", pk |-> "id", ai |-> TRUE, f |-> <<F("id")>> \o [i \in 1..70 |-> IF i % 3 = 0 THEN O("w" \o ToString(i)) ELSE F("w" \o ToString(i))],
                      g |-> <<G("position", <<"x", "y", "z">>)>>, r |-> <<R("tag", "Tag"), R("zag", "Tag")>>]
    \* every type of field
    [] n = "Plain" -> [table |-> "plain", pk |-> "a", ai |-> FALSE,
                       f |-> [i \in 1..17 |-> F(SubSeq("abcdefghijklmnopq", i, i))] \o [i \in 1..17 |-> O("o" \o SubSeq("abcdefghijklmnopq", i, i))],
                       g |-> <<>>, r |-> <<>>]

RECURSIVE AllCols(_, _), AllJoins(_, _)
\* the columns of a record under an alias
OwnCols(n) == LET m == Model(n) IN [i \in 1..Len(m.f) |-> m.f[i].n] \o FlattenSeq([i \in 1..Len(m.g) |-> [j \in 1..Len(m.g[i].cols) |-> m.g[i].n \o "_" \o m.g[i].cols[j]]])
AllCols(n, p) ==
  LET m == Model(n)  own == OwnCols(n)
  IN [i \in 1..Len(own) |-> <<p, own[i]>>] \o FlattenSeq([i \in 1..Len(m.r) |-> AllCols(m.r[i].m, p \o "." \o m.r[i].n)])
AllJoins(n, p) ==
  LET m == Model(n)
  IN FlattenSeq([i \in 1..Len(m.r) |->
       LET q == p \o "." \o m.r[i].n
       IN <<[table |-> Model(m.r[i].m).table, alias |-> q, from |-> <<p, m.r[i].n>>, to |-> <<q, Model(m.r[i].m).pk>>]>> \o AllJoins(m.r[i].m, q)])
RECURSIVE Paths(_, _)
\* every record of a model with its alias
Paths(n, p) == LET m == Model(n) IN <<<<p, n>>>> \o FlattenSeq([i \in 1..Len(m.r) |-> Paths(m.r[i].m, p \o "." \o m.r[i].n)])
Range1(s) == {s[i] : i \in 1..Len(s)}

\* the model, its columns, joins and records (computed once), the case and, for saving, its statements
VARIABLES n, cs, js, ps, case, st
vars == <<n, cs, js, ps, case, st>>

(******************************** query ********************************)
Rotate(s, k) == SubSeq(s, k + 1, Len(s)) \o SubSeq(s, 1, k)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* every other column first
Riffle(s) == [i \in 1..Len(s) |-> IF i <= (Len(s) + 1) \div 2 THEN s[2 * i - 1] ELSE s[2 * (i - (Len(s) + 1) \div 2)]]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Put(s, k, x) == SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
Orders(m) ==
  LET c == cs
  IN {Rotate(c, k) : k \in 0..(Len(c) - 1)} \cup {Rev(c), Riffle(c), Riffle(Rev(c)), Riffle(Riffle(c))}
     \cup (IF Len(c) <= MaxPerm THEN {[i \in 1..Len(c) |-> c[f[i]]] : f \in Permutations(1..Len(c))} ELSE {})
     \* any two exchanged
     \cup {[i \in 1..Len(c) |-> IF i = a THEN c[b] ELSE IF i = b THEN c[a] ELSE c[i]] : a \in 1..Len(c), b \in {x \in 1..Len(c) : Len(c) <= MaxSwap}}
\* columns that are no field of the record they come with
Names(m) == {c[2] : c \in Range1(cs)} \cup {j.from[2] : j \in Range1(js)} \cup {"zzz", ""}
Extras(m) ==
  {<<p[1], x>> : p \in Range1(ps), x \in Names(m)} \ Range1(cs)
Strangers(m) == {<<t, x>> : t \in {"", "other", Model(m).table \o ".none", Model(m).table \o ".none.none", "."}, x \in {"zzz", ""}}
               \cup {<<p[1] \o ".none", "zzz">> : p \in Range1(ps)} \cup {<<p[1] \o "x", "zzz">> : p \in Range1(ps)}
\* all but those that belong to a record the strange name could be taken for
Added(m) == {x \in Extras(m) : \A p \in Range1(ps) : p[1] = x[1] => ~Contains(OwnCols(p[2]), x[2])} \cup Strangers(m)

QueryCases(m) ==
  LET c == cs  e == Added(m)
  IN [cols : Orders(m), why : {"order"}]
     \cup {[cols |-> Without(c, k), why |-> "missing"] : k \in 1..Len(c)}
     \cup {[cols |-> Without(Rev(c), k), why |-> "missing"] : k \in 1..Len(c)}
     \cup {[cols |-> Put(c, k, x), why |-> "extra"] : k \in {0, Len(c) \div 2, Len(c)}, x \in e}
     \cup {[cols |-> Put(Put(Rev(c), 0, x), Len(c) + 1, y), why |-> "extra"] : x \in Strangers(m), y \in {<<"", "">>, <<"other", "zzz">>}}
     \* the column is missing, but there is one of that name elsewhere
     \cup UNION {{[cols |-> Put(Without(c, k), 0, x), why |-> "missing"] : x \in {y \in e : y[2] = c[k][2]}} : k \in 1..Len(c)}
     \cup {[cols |-> Put(c, 0, c[k]), why |-> "twice"] : k \in 1..Len(c)}

\* the column of a result a field is taken from: 0 if there is none
Place(cols, fld) == LET at == {i \in 1..Len(cols) : cols[i] = fld} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
Complete(m, cols) == \A i \in 1..Len(cs) : Place(cols, cs[i]) # 0

(******************************** save ********************************)
FN(m) == {Model(m).f[i].n : i \in 1..Len(Model(m).f)}
Opt(m, x) == \E i \in 1..Len(Model(m).f) : Model(m).f[i] = O(x)
GN(m) == {Model(m).g[i].n : i \in 1..Len(Model(m).g)}
RN(m) == {Model(m).r[i].n : i \in 1..Len(Model(m).r)}
RefModel(m, x) == Model(m).r[CHOOSE i \in 1..Len(Model(m).r) : Model(m).r[i].n = x].m
RECURSIVE Product(_, _)
\* functions that choose from Of[x] for each x
Product(S, Of) ==
  IF S = {} THEN {<<>>}
  ELSE LET x == CHOOSE x \in S : TRUE IN {(x :> v) @@ f : v \in Of[x], f \in Product(S \ {x}, Of)}
Unset == [k |-> "unset", t |-> <<>>]
SetTo == [k |-> "set", t |-> <<>>]
Ins(t) == [k |-> "insert", t |-> <<t>>]

\* characteristic choices
FPat(m) ==
  {[x \in FN(m) |-> "set"], [x \in FN(m) |-> "unset"], [x \in FN(m) |-> IF Opt(m, x) THEN "null" ELSE "set"], [x \in FN(m) |-> IF Opt(m, x) THEN "null" ELSE "unset"]}
  \cup {[x \in FN(m) |-> IF x = y THEN "set" ELSE "unset"] : y \in FN(m)}
  \cup {[x \in FN(m) |-> IF x = y THEN "unset" ELSE "set"] : y \in FN(m)}
  \cup {[x \in FN(m) |-> IF x = y THEN "null" ELSE "set"] : y \in {z \in FN(m) : Opt(m, z)}}
FFull(m) == Product(FN(m), [x \in FN(m) |-> IF Opt(m, x) THEN {"set", "null", "unset"} ELSE {"set", "unset"}])
GAll(m) == [GN(m) -> {"set", "unset"}]
RECURSIVE Few(_), Trees(_)
Few(m) ==
  {[f |-> [x \in FN(m) |-> IF x = Model(m).pk /\ Model(m).ai THEN "unset" ELSE "set"], g |-> [x \in GN(m) |-> "set"], r |-> c] :
      c \in Product(RN(m), [x \in RN(m) |-> {Ins(CHOOSE t \in Few(RefModel(m, x)) : t.f[Model(RefModel(m, x)).pk] = "unset" \/ ~Model(RefModel(m, x)).ai)}])}
  \cup {[f |-> [x \in FN(m) |-> "set"], g |-> [x \in GN(m) |-> "unset"], r |-> [x \in RN(m) |-> SetTo]],
        [f |-> [x \in FN(m) |-> "unset"], g |-> [x \in GN(m) |-> "unset"], r |-> [x \in RN(m) |-> Unset]]}
RChoices(m, sub) == Product(RN(m), [x \in RN(m) |-> {Unset, SetTo} \cup {Ins(t) : t \in sub[x]}])
Trees(m) ==
  IF m \in Full
  THEN [f : FFull(m), g : GAll(m), r : RChoices(m, [x \in RN(m) |-> IF RefModel(m, x) \in Full THEN Trees(RefModel(m, x)) ELSE Few(RefModel(m, x))])]
  ELSE [f : FPat(m), g : {[x \in GN(m) |-> "set"], [x \in GN(m) |-> "unset"]} \cup {[x \in GN(m) |-> IF x = y THEN "set" ELSE "unset"] : y \in GN(m)},
        r : RChoices(m, [x \in RN(m) |-> Few(RefModel(m, x))])]
\* what becomes of a record that is saved as a whole
RECURSIVE Whole(_)
Whole(m) == [f |-> [x \in FN(m) |-> IF x = Model(m).pk /\ Model(m).ai THEN "unset" ELSE "any"], g |-> [x \in GN(m) |-> "set"],
             r |-> [x \in RN(m) |-> Ins(Whole(RefModel(m, x)))]]

Col(c, k, p, q) == [c |-> c, k |-> k, p |-> p, q |-> q]
\* the columns of a record's statement: k is "val" (the value set for field q of record p), "null", "any", "id" (the one the server generates for record p)
ColsFor(m, p, t) ==
  LET md == Model(m)
      fs == FlattenSeq([i \in 1..Len(md.f) |-> LET x == md.f[i].n IN
              CASE t.f[x] = "unset" -> <<>>
                [] t.f[x] = "null" -> <<Col(x, "null", p, x)>>
                [] t.f[x] = "any" -> <<Col(x, "any", p, x)>>
                [] OTHER -> <<Col(x, "val", p, x)>>])
      gs == FlattenSeq([i \in 1..Len(md.g) |-> IF t.g[md.g[i].n] = "unset" THEN <<>>
              ELSE [j \in 1..Len(md.g[i].cols) |-> Col(md.g[i].n \o "_" \o md.g[i].cols[j], "val", p, md.g[i].n \o "_" \o md.g[i].cols[j])]])
      rs == FlattenSeq([i \in 1..Len(md.r) |->
              LET x == md.r[i].n  c == t.r[x]  q == p \o "." \o x  pk == Model(md.r[i].m).pk
              IN CASE c.k = "unset" -> <<>>
                   [] c.k = "set" -> <<Col(x, "val", p, x)>>
                   [] c.t[1].f[pk] = "unset" -> <<Col(x, "id", q, pk)>>
                   [] OTHER -> <<Col(x, IF c.t[1].f[pk] = "any" THEN "any" ELSE "val", q, pk)>>])
  IN fs \o gs \o rs
RECURSIVE Stmts(_, _, _, _)
Children(m, p, t) == FlattenSeq([i \in 1..Len(Model(m).r) |->
   LET x == Model(m).r[i].n  c == t.r[x] IN IF c.k = "insert" THEN Stmts("insert", Model(m).r[i].m, p \o "." \o x, c.t[1]) ELSE <<>>])
Stmts(kind, m, p, t) ==
  Children(m, p, t) \o (IF kind = "update" /\ ColsFor(m, p, t) = <<>> THEN <<>>
                        ELSE <<[kind |-> kind, table |-> Model(m).table, p |-> p, pk |-> Model(m).pk, keyed |-> t.f[Model(m).pk] # "unset", cols |-> ColsFor(m, p, t)]>>)
StmtsOf(op, m, t) == Stmts(IF op = "update" THEN "update" ELSE "insert", m, Model(m).table, t)

SaveCases(m) ==
  [op : {"insert", "update"}, tree : Trees(m)] \cup {[op |-> "whole", tree |-> Whole(m)]}

(******************************** what is checked of the specification ********************************)
\* each column is selected once
Once == Cardinality(Range1(cs)) = Len(cs)
\* a table joined is joined to one that is there
Joined == LET j == js
          IN \A i \in 1..Len(j) : j[i].from[1] = Model(n).table \/ \E k \in 1..(i - 1) : j[k].alias = j[i].from[1]
\* aliases are distinct
Aliases == Cardinality({p[1] : p \in Range1(ps)}) = Len(ps)
Expected ==
  Fam = "query" => /\ (case.why # "missing") = Complete(n, case.cols)
                   /\ case.why = "extra" => \A x \in Range1(cs) : Place(case.cols, x) # 0
SavesWell ==
  Fam = "save" =>
    LET s == st
    IN /\ \A i \in 1..Len(s) : \A c \in Range1(s[i].cols) : c.k = "id" => \E j \in 1..(i - 1) : s[j].p = c.p /\ ~s[j].keyed
       /\ Cardinality({s[i].p : i \in 1..Len(s)}) = Len(s)
       /\ \A i \in 1..Len(s) : Cardinality({c.c : c \in Range1(s[i].cols)}) = Len(s[i].cols)

Init ==
  /\ n \in Models
  /\ cs = AllCols(n, Model(n).table) /\ js = AllJoins(n, Model(n).table) /\ ps = Paths(n, Model(n).table)
  /\ case \in (IF Fam = "query" THEN QueryCases(n) ELSE SaveCases(n))
  /\ st = (IF Fam = "query" THEN <<>> ELSE StmtsOf(case.op, n, case.tree))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Out(fault) ==
  IF Fam = "query"
  THEN [model |-> n, table |-> Model(n).table, pk |-> Model(n).pk, ai |-> Model(n).ai, cols |-> case.cols, fields |-> [i \in 1..Len(cs) |-> [f |-> cs[i], at |-> Place(case.cols, cs[i])]],
        joins |-> js, why |-> case.why]
  ELSE [model |-> n, table |-> Model(n).table, pk |-> Model(n).pk, ai |-> Model(n).ai, op |-> case.op, tree |-> case.tree, stmts |-> st, fault |-> fault]
Emit ==
  IF Fam = "query" THEN PrintT("@@" \o ToJson(Out("")))
  ELSE \A i \in 0..(LET k == Len(st) IN IF k < MaxFault THEN k ELSE MaxFault) :
         PrintT("@@" \o ToJson(Out(IF i = 0 THEN "" ELSE st[i].p)))
=============================================================================
