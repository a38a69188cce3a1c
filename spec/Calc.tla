-------------------------------- MODULE Calc --------------------------------
(* The meaning of a calculation, defined on its token sequence: the outermost *)
(* operator is the last one outside parentheses of the weakest rank present   *)
(* (comparison, then &, then + -, then * /), which is what precedence and     *)
(* left associativity mean.  Nothing here follows the implementation's        *)
(* parser.                                                                    *)
(*                                                                            *)
(* Tokens: [k |-> "val", v |-> value] literal     [k |-> "var", s]            *)
(*         [k |-> "fld", o, f]                     [k |-> "fn", s]            *)
(*         [k |-> "op", s]   [k |-> "lp"]  [k |-> "rp"]  [k |-> "comma"]      *)
EXTENDS Db, TLC

CmpOps == {"==", "!=", "<", "<=", ">", ">="}
Ranks == << CmpOps, {"&"}, {"+", "-"}, {"*", "/"} >>

(* d[p]: open parentheses before token p *)
RECURSIVE DepthFrom(_, _, _)
DepthFrom(T, p, d) ==
  IF p > Len(T) THEN << >>
  ELSE << IF T[p].k = "rp" THEN d - 1 ELSE d >>
         \o DepthFrom(T, p + 1, IF T[p].k = "lp" THEN d + 1 ELSE IF T[p].k = "rp" THEN d - 1 ELSE d)
Depths(T) == DepthFrom(T, 1, 0)

RECURSIVE LastOp(_, _, _, _, _, _)
LastOp(T, D, i, j, b, ops) ==
  IF j < i THEN 0
  ELSE IF T[j].k = "op" /\ D[j] = b /\ T[j].s \in ops THEN j
  ELSE LastOp(T, D, i, j - 1, b, ops)

RECURSIVE NextComma(_, _, _, _, _)
NextComma(T, D, i, j, b) ==
  IF i > j THEN 0
  ELSE IF T[i].k = "comma" /\ D[i] = b THEN i
  ELSE NextComma(T, D, i + 1, j, b)

VarValue(env, x) == IF x \in DOMAIN env.vars THEN env.vars[x] ELSE Empty

Admin == << 65, 100, 109, 105, 110 >>
Apply(f, args) ==
  CASE f = "Abs" /\ IsNum(args[1]) -> NumAbs(args[1])
    [] f = "Min" -> MinOf(args)
    [] f = "Char" /\ IsNum(args[1]) /\ args[1].k = 0 -> Text(<< args[1].n >>)
    [] OTHER -> Unspec

RECURSIVE EvalRange(_, _, _, _, _, _)
RECURSIVE EvalRank(_, _, _, _, _, _, _)
RECURSIVE EvalArgs(_, _, _, _, _, _)

(* env: [vars, S, db] *)
EvalPrimary(T, D, i, j, b, env) ==
  CASE T[i].k = "val" -> T[i].v
    [] T[i].k = "var" -> VarValue(env, T[i].s)
    [] T[i].k = "fld" -> ReadField(env.S, env.db, T[i].o, T[i].f)
    [] T[i].k = "lp"  -> EvalRange(T, D, i + 1, j - 1, b + 1, env)
    [] T[i].k = "fn"  -> IF T[i].s = "Get"
                         THEN (IF T[i + 2].s = "AccountName" THEN Text(Admin) ELSE Unspec)
                         ELSE Apply(T[i].s, EvalArgs(T, D, i + 2, j - 1, b + 1, env))

EvalArgs(T, D, i, j, b, env) ==
  LET c == NextComma(T, D, i, j, b)
  IN IF c = 0 THEN << EvalRange(T, D, i, j, b, env) >>
     ELSE << EvalRange(T, D, i, c - 1, b, env) >> \o EvalArgs(T, D, c + 1, j, b, env)

EvalRank(T, D, i, j, b, env, r) ==
  IF r > Len(Ranks) THEN EvalPrimary(T, D, i, j, b, env)
  ELSE LET p == LastOp(T, D, i, j, b, Ranks[r])
       IN IF p = 0 THEN EvalRank(T, D, i, j, b, env, r + 1)
          ELSE LET x == EvalRange(T, D, i, p - 1, b, env)
                   y == EvalRange(T, D, p + 1, j, b, env)
               IN CASE r = 1 -> Compare(T[p].s, x, y)
                    [] r = 2 -> Join(x, y)
                    [] OTHER -> Arith(T[p].s, x, y)

EvalRange(T, D, i, j, b, env) == EvalRank(T, D, i, j, b, env, 1)

Eval(T, env) == EvalRange(T, Depths(T), 1, Len(T), 0, env)
=============================================================================
