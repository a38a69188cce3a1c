------------------------------ MODULE Relation ------------------------------
(* The relationships between table occurrences: which occurrences are         *)
(* connected, by what paths, and what value a related field has.              *)
(*                                                                            *)
(* A link set is a set of pairs << a, b >> of occurrences, with both pairs of *)
(* every relationship.  A relationship is a record [a, fa, op, b, fb]: the    *)
(* field fa of occurrence a stands on the left of the operator.               *)
EXTENDS Db

Link(E, a, b) == E \cup {<< a, b >>, << b, a >>}
Next1(E, X) == {e[2] : e \in {x \in E : x[1] \in X}}

RECURSIVE Search(_, _, _, _, _)
Search(E, front, seen, n, dst) ==
  IF dst \in front THEN n
  ELSE IF front = {} THEN -1
  ELSE LET f == Next1(E, front) \ seen IN Search(E, f, seen \cup f, n + 1, dst)
(* the number of links between two occurrences, -1: they are not connected    *)
Distance(E, a, b) == Search(E, {a}, {a}, 0, b)

Walk(E, p) == \A i \in 1..Len(p) - 1 : << p[i], p[i + 1] >> \in E
(* what may be answered, for different occurrences: << >> is no path          *)
IsAnswer(E, a, b, p) ==
  IF p = << >> THEN Distance(E, a, b) = -1
  ELSE p[1] = a /\ p[Len(p)] = b /\ Walk(E, p) /\ Len(p) = Distance(E, a, b) + 1

RECURSIVE Extend(_, _, _, _)
Extend(E, paths, n, dst) ==
  IF n = 0 THEN {p \in paths : p[Len(p)] = dst}
  ELSE Extend(E, UNION {{Append(p, y) : y \in Next1(E, {p[Len(p)]})} : p \in paths}, n - 1, dst)
ShortestPaths(E, a, b) == LET d == Distance(E, a, b) IN IF d < 0 THEN {} ELSE Extend(E, {<< a >>}, d, b)

(* ------------------------------ related values --------------------------- *)
LinksOf(rels) == UNION {{<< rels[i].a, rels[i].b >>, << rels[i].b, rels[i].a >>} : i \in DOMAIN rels}
Mirrored(op) == CASE op = "<" -> ">" [] op = "<=" -> ">=" [] op = ">" -> "<" [] op = ">=" -> "<=" [] OTHER -> op
(* the relationship from x to y, read in that direction                       *)
Towards(rels, x, y) ==
  LET i == CHOOSE k \in DOMAIN rels : {rels[k].a, rels[k].b} = {x, y}
      r == rels[i]
  IN IF r.a = x THEN r ELSE [a |-> r.b, fa |-> r.fb, op |-> Mirrored(r.op), b |-> r.a, fb |-> r.fa]
(* an empty field is an empty text                                            *)
Related(op, u, v) == IF op = "x" THEN TRUE ELSE Comparable(u, v) /\ Holds(op, ValCmp(u, v))

RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
Hop(S, db, r, recs) ==
  LET t == TabOf(S, r.a) u == TabOf(S, r.b)
  IN Flat([i \in DOMAIN recs |-> SelectSeq(AllRecords(db, u), LAMBDA x : Related(r.op, db.tabs[t][recs[i]][r.fa], db.tabs[u][x][r.fb]))])
RECURSIVE Follow(_, _, _, _, _, _)
Follow(S, db, rels, p, i, recs) ==
  IF i = Len(p) \/ recs = << >> THEN recs ELSE Follow(S, db, rels, p, i + 1, Hop(S, db, Towards(rels, p[i], p[i + 1]), recs))
(* the records reached along a path from the current record                   *)
Reached(S, db, rels, p) == IF HasCurrent(db, db.cur) THEN Follow(S, db, rels, p, 1, << CurrentRecord(db, db.cur) >>) ELSE << >>
NoValue == [t |-> "none"]
RelatedAlong(S, db, rels, p, f) ==
  LET recs == Reached(S, db, rels, p) IN IF recs = << >> THEN NoValue ELSE db.tabs[TabOf(S, p[Len(p)])][recs[1]][f]
(* the values that a related field may have: one for every shortest path      *)
RelatedValues(S, db, rels, o, f) ==
  LET ps == ShortestPaths(LinksOf(rels), db.cur, o)
  IN IF ps = {} THEN {NoValue} ELSE {RelatedAlong(S, db, rels, p, f) : p \in ps}

(* Where the known restrictions of Database::get_related_record_field begin:  *)
(* its answer is only compared where none of these is met on any of the paths.*)
Compared(S, db, r) ==
  {<< db.tabs[TabOf(S, r.a)][x][r.fa], db.tabs[TabOf(S, r.b)][y][r.fb] >> : x \in 1..Len(db.tabs[TabOf(S, r.a)]), y \in 1..Len(db.tabs[TabOf(S, r.b)])}
Width(v) == IF IsNum(v) THEN Len(Decimal(v)) ELSE Len(Chars(v))
Plain(v) == IsNum(v) => NumSign(v) >= 0
(* 7.5 is below 100, its written form is above *)
AsWritten(u, v) == IsNum(u) /\ IsNum(v) => TextCmp(Decimal(u), Decimal(v)) = NumCmp(u, v)
HopLimits(S, db, rels, p, i) ==
  LET r == Towards(rels, p[i], p[i + 1])
      turned == ~\E k \in DOMAIN rels : rels[k].a = p[i] /\ rels[k].b = p[i + 1]
      cs == Compared(S, db, r)
  IN (IF r.op \in {"<", ">"} /\ \E c \in cs : Comparable(c[1], c[2]) /\ ValCmp(c[1], c[2]) = 0 THEN {"less-inclusive"} ELSE {})
     \cup (IF turned /\ r.op \notin {"==", "!=", "x"} THEN {"mirrored-operator"} ELSE {})
     \cup (IF r.op \notin {"==", "!=", "x"} /\ \E c \in cs : Width(c[1]) # Width(c[2]) \/ ~Plain(c[1]) \/ ~Plain(c[2]) \/ ~AsWritten(c[1], c[2]) THEN {"order-of-texts"} ELSE {})
     \cup (IF \E c \in cs : ~Comparable(c[1], c[2]) THEN {"mixed"} ELSE {})
     \cup (IF i > 1 /\ Towards(rels, p[i - 1], p[i]).fb # r.fa THEN {"second-hop-field"} ELSE {})
RelatedLimits(S, db, rels, o) ==
  UNION {UNION {HopLimits(S, db, rels, p, i) : i \in 1..Len(p) - 1} : p \in ShortestPaths(LinksOf(rels), db.cur, o)}
=============================================================================
