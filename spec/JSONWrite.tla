------------------------------- MODULE JSONWrite -------------------------------
(* Value graph -> JSON text with every character but printable ASCII escaped,       *)
(* keys in order of their code points, optionally indented.                           *)
EXTENDS Values

WStr(t) == JStr(t)
RECURSIVE W(_, _, _, _)
\* indent 0: one line
W(v, h, indent, level) ==
    LET nl(n) == IF indent = 0 THEN <<>> ELSE <<10>> \o Repeat(<<32>>, n * indent)
        colon == IF indent = 0 THEN <<58>> ELSE <<58, 32>>
        block(open, items, close) == IF items = <<>> THEN <<open, close>>
                                     ELSE <<open>> \o nl(level + 1) \o JoinWith(items, <<44>> \o nl(level + 1)) \o nl(level) \o <<close>>
    IN CASE v[1] = "z" -> NullT
         [] v[1] = "b" -> (IF v[2] THEN TrueT ELSE FalseT)
         [] v[1] = "s" -> WStr(v[2])
         [] v[1] = "a" -> block(91, [i \in 1..Len(Items(h, v)) |-> W(Items(h, v)[i], h, indent, level + 1)], 93)
         [] v[1] = "o" -> LET ps == SortedPairs(Items(h, v)) IN block(123, [i \in 1..Len(ps) |-> WStr(ps[i][1]) \o colon \o W(ps[i][2], h, indent, level + 1)], 125)
         [] v[1] = "nz" -> <<48>>
         [] OTHER -> NText(v)
WriteJSON(v, h, indent) == W(v, h, indent, 0)
=============================================================================
