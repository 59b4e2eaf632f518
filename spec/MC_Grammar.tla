------------------------------ MODULE MC_Grammar ------------------------------
(* The reading of operator chains is the one the levels dictate: a tree over the   *)
(* operands in their order in which no operator has an operand (outside of          *)
(* parentheses) of a lower level, nor a right operand of its own level.  There is   *)
(* exactly one.  An algorithm that re-orders the right spine of a left-to-right     *)
(* tree builds the same one.                                                        *)
EXTENDS Grammar, TLC

CONSTANTS MaxOps, OpSet

OpList == <<"**", "*", "/", "%", "+", "-", "<=", "<", ">=", ">", "==", "!=", "&&", "||">>
OpText(o) == CASE o = "**" -> <<42, 42>> [] o = "*" -> <<42>> [] o = "/" -> <<47>> [] o = "%" -> <<37>> [] o = "+" -> <<43>> [] o = "-" -> <<45>>
               [] o = "<=" -> <<60, 61>> [] o = "<" -> <<60>> [] o = ">=" -> <<62, 61>> [] o = ">" -> <<62>> [] o = "==" -> <<61, 61>>
               [] o = "!=" -> <<33, 61>> [] o = "&&" -> <<38, 38>> [] OTHER -> <<124, 124>>
Level(o) == OpAt(OpText(o) \o <<97>>, 1)[2]
Operand(k) == <<96 + k>>
Text1(ops) == FoldLeft(LAMBDA acc, k : acc \o (IF k % 2 = 0 THEN <<32>> ELSE <<>>) \o OpText(ops[k]) \o <<32>> \o Operand(k + 1), Operand(1), [k \in 1..Len(ops) |-> k])

Leaf(k) == <<"var", Operand(k)>>
RECURSIVE Trees(_, _, _)
\* all trees over the operands lo .. hi
Trees(ops, lo, hi) == IF lo = hi THEN {Leaf(lo)}
                      ELSE UNION {{<<"bin", ops[k], l, r>> : l \in Trees(ops, lo, k), r \in Trees(ops, k + 1, hi)} : k \in lo..(hi - 1)}
RECURSIVE Proper(_)
Proper(t) == t[1] # "bin" \/ (/\ Proper(t[3]) /\ Proper(t[4])
                              /\ (t[3][1] = "bin" => Level(t[3][2]) >= Level(t[2]))
                              /\ (t[4][1] = "bin" => Level(t[4][2]) > Level(t[2])))
\* insert an operator and its right operand into a tree, along its right spine
RECURSIVE Insert(_, _, _)
Insert(t, o, r) == IF t[1] = "bin" /\ Level(t[2]) < Level(o) THEN <<"bin", t[2], t[3], Insert(t[4], o, r)>> ELSE <<"bin", o, t, r>>
Spine(ops) == FoldLeft(LAMBDA acc, k : Insert(acc, ops[k], Leaf(k + 1)), Leaf(1), [k \in 1..Len(ops) |-> k])

VARIABLES ops
Init == ops = <<>>
Next == Len(ops) < MaxOps /\ \E o \in OpSet : ops' = Append(ops, o)
Spec == Init /\ [][Next]_ops
Parsed == Expr(Text1(ops))
OneTree == Parsed[1] = "ok" /\ {t \in Trees(ops, 1, Len(ops) + 1) : Proper(t)} = {Parsed[2]}
SameAsSpine == Parsed[2] = Spine(ops)
\* parentheses and signs: they bind tighter than any operator
Wrapped == LET t == <<45, 40>> \o Text1(ops) \o <<41, 42, 33, 122>> IN Expr(t) = <<"ok", <<"bin", "*", <<"un", "-", <<"grp", Parsed[2]>>>>, <<"un", "!", <<"var", <<122>>>>>>>>>>
\* no proper prefix that ends behind an operator is an expression, and the error is at its end
Cut == ops # <<>> => LET t == Text1(ops) \o OpText(ops[1]) IN Expr(t) = <<"err", Len(t) + 1, Len(t) + 1>>
=============================================================================
