-------------------------------- MODULE Schema --------------------------------
(* The published schema of a BareScript model, and the predicate it defines over    *)
(* values: <<"o", <<<<key, value>>, ...>>>> (an object), <<"a", values>>, <<"s", text>>, *)
(* <<"b">>, <<"n">> (a number), <<"z">> (null), <<"x">> (anything else).         *)
(* A type is <<"string">>, <<"bool">>, <<"float">>, <<"array", type, least length>>,      *)
(* <<"enum", texts>>, <<"struct", name>> or <<"union", name>>.                             *)
EXTENDS Naturals, Sequences, FiniteSets

Str == <<"string">>
Boo == <<"bool">>
Flo == <<"float">>
Arr(t, n) == <<"array", t, n>>
ExprT == <<"union", "Expression">>
Stmts == Arr(<<"union", "ScriptStatement">>, 0)
BinOps == {"**", "*", "/", "%", "+", "-", "<=", "<", ">=", ">", "==", "!=", "&&", "||"}

\* the members of a struct or union: <<name, type, required>>
Members(n) ==
    CASE n = "BareScript" -> <<<<"statements", Stmts, TRUE>>>>
      [] n = "ScriptStatement" -> <<<<"expr", <<"struct", "ExpressionStatement">>, TRUE>>, <<"jump", <<"struct", "JumpStatement">>, TRUE>>,
                                    <<"return", <<"struct", "ReturnStatement">>, TRUE>>, <<"label", Str, TRUE>>,
                                    <<"function", <<"struct", "FunctionStatement">>, TRUE>>, <<"include", <<"struct", "IncludeStatement">>, TRUE>>>>
      [] n = "ExpressionStatement" -> <<<<"name", Str, FALSE>>, <<"expr", ExprT, TRUE>>>>
      [] n = "JumpStatement" -> <<<<"label", Str, TRUE>>, <<"expr", ExprT, FALSE>>>>
      [] n = "ReturnStatement" -> <<<<"expr", ExprT, FALSE>>>>
      [] n = "FunctionStatement" -> <<<<"async", Boo, FALSE>>, <<"name", Str, TRUE>>, <<"args", Arr(Str, 1), FALSE>>, <<"lastArgArray", Boo, FALSE>>,
                                      <<"statements", Stmts, TRUE>>>>
      [] n = "IncludeStatement" -> <<<<"includes", Arr(<<"struct", "IncludeScript">>, 1), TRUE>>>>
      [] n = "IncludeScript" -> <<<<"url", Str, TRUE>>, <<"system", Boo, FALSE>>>>
      [] n = "Expression" -> <<<<"number", Flo, TRUE>>, <<"string", Str, TRUE>>, <<"variable", Str, TRUE>>, <<"function", <<"struct", "FunctionExpression">>, TRUE>>,
                               <<"binary", <<"struct", "BinaryExpression">>, TRUE>>, <<"unary", <<"struct", "UnaryExpression">>, TRUE>>, <<"group", ExprT, TRUE>>>>
      [] n = "BinaryExpression" -> <<<<"op", <<"enum", BinOps>>, TRUE>>, <<"left", ExprT, TRUE>>, <<"right", ExprT, TRUE>>>>
      [] n = "UnaryExpression" -> <<<<"op", <<"enum", {"-", "!"}>>, TRUE>>, <<"expr", ExprT, TRUE>>>>
      [] n = "FunctionExpression" -> <<<<"name", Str, TRUE>>, <<"args", Arr(ExprT, 0), FALSE>>>>

\* the members of an object are members of the struct, once each
RECURSIVE Conforms(_, _)
Known(o, ms) == \A i \in 1..Len(o) : \E j \in 1..Len(ms) : ms[j][1] = o[i][1] /\ Conforms(ms[j][2], o[i][2])
Once(o) == \A i \in 1..Len(o) : \A j \in 1..Len(o) : i # j => o[i][1] # o[j][1]
Conforms(t, v) ==
    CASE t[1] = "string" -> v[1] = "s"
      [] t[1] = "bool" -> v[1] = "b"
      [] t[1] = "float" -> v[1] = "n"
      [] t[1] = "enum" -> v[1] = "s" /\ v[2] \in t[2]
      [] t[1] = "array" -> v[1] = "a" /\ Len(v[2]) >= t[3] /\ \A i \in 1..Len(v[2]) : Conforms(t[2], v[2][i])
      [] t[1] = "struct" -> v[1] = "o" /\ Once(v[2]) /\ Known(v[2], Members(t[2]))
                            /\ \A j \in 1..Len(Members(t[2])) : Members(t[2])[j][3] => \E i \in 1..Len(v[2]) : v[2][i][1] = Members(t[2])[j][1]
      [] OTHER -> v[1] = "o" /\ Len(v[2]) = 1 /\ Known(v[2], Members(t[2]))
IsModel(v) == Conforms(<<"struct", "BareScript">>, v)
=============================================================================
