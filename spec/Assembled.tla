----------------------------- MODULE Assembled -----------------------------
(* The fmp12 file assembled from a compiled schema                            *)
(*   src: [tables, occs: sequences of << id, name >> in id order,             *)
(*         layouts, scripts: how many]                                        *)
(* Events(src) is what its catalog sector says, as a sequence of              *)
(*   << "open", d >>  << "close" >>  << "key", k, bytes >>                    *)
(*   << "long", bytes, bytes >>  << "data", bytes >>                          *)
EXTENDS Codec, FiniteSets

Open(d) == << << "open", d >> >>
Close == << << "close" >> >>
Entry(k, b) == << << "key", k, b >> >>
Long(k, b) == << << "long", k, b >> >>
Plain(b) == << << "data", b >> >>
In(d, s) == Open(d) \o s \o Close
RECURSIVE Flat(_)
Flat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Flat(Tail(s))
Each(s, F(_)) == Flat([k \in DOMAIN s |-> F(s[k])])

Four(n) == PutInt(<< 0, n >>)
NameKey(t) == Name(t[2]) \o << 0 >>
Tables(src) ==
  In(16, In(1, In(1, Each(src.tables, LAMBDA t : Long(NameKey(t), << 2, 128, t[1] >>)))
               \o In(3, Each(src.tables, LAMBDA t : Long(Four(t[1]), Four(t[1]))))
               \o Entry(4, Four(Len(src.tables))))
         \o In(5, Each(src.tables, LAMBDA t : In(128 + t[1], << >>))))
Occurrences(src) ==
  In(17, In(1, Entry(0, << 3, 208, 0, 9 >>)
               \o In(1, Each(src.occs, LAMBDA o : Plain(Name(o[2]) \o << 0, 0 >>)))
               \o In(3, Each(src.occs, LAMBDA o : Plain(Four(o[1]))))
               \o In(8, << >>)))
Events(src) ==
  In(2, << >>)
  \o In(3, Tables(src) \o Occurrences(src))
  \o In(4, In(1, Entry(0, << 1, src.layouts >>) \o In(5, << >>)))
  \o In(6, << >>)
  \o In(17, In(1, Entry(0, << 1, src.scripts >>) \o In(1, << >>)))
  \o In(23, << >>) \o In(6, << >>) \o In(25, << >>) \o In(65, << >>)

(* ------------------------------------------------------------------ reading *)
(* What a decoded chunk says, with the directories that were open before it.  *)
(* The start-up values in directory 2 and the creator texts are left open.    *)
Opaque(p, f) == \/ Len(p) = 1 /\ p[1] = 2
                \/ f.kind = "ref" /\ f.key \in {129, 130, 216}
Said(p, f) ==
  CASE f.kind = "push" -> Open(f.dir)
    [] f.kind = "pop" -> Close
    [] f.kind = "noop" \/ (f.kind = "data" /\ f.data = << >>) -> << >>
    [] Opaque(p, f) -> << >>
    [] f.kind = "ref" -> Entry(f.key, f.data)
    [] f.kind = "reflong" -> Long(f.ref, f.data)
    [] f.kind = "data" -> Plain(f.data)
    [] OTHER -> << << f.kind >> >>

(* ------------------------------------------------------------------ writing *)
(* one way of writing events as chunks                                        *)
Opening(d) == (IF d < 128 THEN << 32, d >> ELSE << 40 >> \o Mark(d)) \o << 128 >>
X(b) == [key |-> 0, key2 |-> 128, seg |-> 0, ref |-> << >>, data |-> b, dir |-> 0]
Chunk(e) ==
  CASE e[1] = "open" -> Opening(e[2])
    [] e[1] = "close" -> << 64 >>
    [] e[1] = "key" -> Write(IF Carries(Len(e[3]) \div 2 + 1, Len(e[3])) /\ Len(e[3]) < 9 THEN Len(e[3]) \div 2 + 1 ELSE 6, [X(e[3]) EXCEPT !.key = e[2]])
    [] e[1] = "long" -> Write(30, [X(e[3]) EXCEPT !.ref = e[2]])
    [] e[1] = "data" -> Write(27, X(e[2]))
RECURSIVE Bytes(_)
Bytes(es) == IF es = << >> THEN << >> ELSE Chunk(Head(es)) \o Bytes(Tail(es))
=============================================================================
