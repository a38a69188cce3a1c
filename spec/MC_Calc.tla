------------------------------- MODULE MC_Calc -------------------------------
(* Calc reads a row of tokens; here the same calculations are trees with a    *)
(* value of their own.  Written down with as few parentheses as precedence    *)
(* and grouping from the left allow, with all of them, and with some more,    *)
(* every tree up to Depth has to have the value of its tokens.                *)
EXTENDS Calc
CONSTANTS Depth, Numbers

T0 == {[o |-> "n", n |-> n] : n \in Numbers} \cup {[o |-> "t"]}
Ops == {"+", "-", "*", "/", "&", "==", "<"}
RECURSIVE Trees(_)
Trees(d) ==
  IF d = 0 THEN T0
  ELSE LET s == Trees(d - 1) IN s \cup {[o |-> o, a |-> a, b |-> b] : o \in Ops, a \in s, b \in s}
       \cup {[o |-> "Abs", a |-> a] : a \in s} \cup {[o |-> "Min", a |-> a, b |-> b] : a, b \in T0}

Words == Text(<< 97 >>)
RECURSIVE Worth(_)
Worth(x) ==
  CASE x.o = "n" -> IntNum(x.n)
    [] x.o = "t" -> Words
    [] x.o = "Abs" -> LET v == Worth(x.a) IN IF IsNum(v) THEN NumAbs(v) ELSE Unspec
    [] x.o = "Min" -> MinOf(<< Worth(x.a), Worth(x.b) >>)
    [] x.o \in {"==", "<"} -> Compare(x.o, Worth(x.a), Worth(x.b))
    [] x.o = "&" -> Join(Worth(x.a), Worth(x.b))
    [] OTHER -> Arith(x.o, Worth(x.a), Worth(x.b))

Tight(o) == CASE o \in {"==", "<"} -> 1 [] o = "&" -> 2 [] o \in {"+", "-"} -> 3 [] o \in {"*", "/"} -> 4 [] OTHER -> 5
Tok(k) == << [k |-> k] >>
Par(s) == Tok("lp") \o s \o Tok("rp")
(* style: "few", "all" *)
RECURSIVE Spelled(_, _)
Spelled(x, style) ==
  CASE x.o = "n" -> << [k |-> "val", v |-> IntNum(x.n)] >>
    [] x.o = "t" -> << [k |-> "val", v |-> Words] >>
    [] x.o = "Abs" -> << [k |-> "fn", s |-> "Abs"] >> \o Par(Spelled(x.a, style))
    [] x.o = "Min" -> << [k |-> "fn", s |-> "Min"] >> \o Par(Spelled(x.a, style) \o Tok("comma") \o Spelled(x.b, style))
    [] OTHER ->
       LET side(y, low) == IF style = "all" \/ Tight(y.o) < low THEN Par(Spelled(y, style)) ELSE Spelled(y, style)
       IN side(x.a, Tight(x.o)) \o << [k |-> "op", s |-> x.o] >> \o side(x.b, Tight(x.o) + 1)

VARIABLES tree
Init == tree \in Trees(Depth)
Next == UNCHANGED tree
Spec == Init /\ [][Next]_tree
Env == [vars |-> [x \in {} |-> Empty], S |-> [nf |-> << >>], db |-> << >>]
Few == Eval(Spelled(tree, "few"), Env) = Worth(tree)
Full == Eval(Spelled(tree, "all"), Env) = Worth(tree)
More == Eval(Par(Par(Spelled(tree, "few"))), Env) = Worth(tree)
=============================================================================
