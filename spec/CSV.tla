----------------------------------- MODULE CSV -----------------------------------
(* Writing typed tables as CSV text: cells in quotes where they need it (or always),    *)
(* one record per line.  Style: [quote |-> all cells in quotes, crlf, last |-> the last   *)
(* line is ended too, null |-> the text of null].                                          *)
EXTENDS Data

NeedsQuotes(t) == t = <<>> \/ t[1] = 32 \/ \E i \in 1..Len(t) : t[i] \in {34, 44, 10, 13}
QuoteCell(t) == <<34>> \o FoldLeft(LAMBDA acc, c : IF c = 34 THEN acc \o <<34, 34>> ELSE Append(acc, c), <<>>, t) \o <<34>>
CellText(v, h, st) == IF v = Null THEN st.null ELSE VText(v, h)
CellOut(v, h, st) == LET t == CellText(v, h, st) IN IF st.quote \/ (v[1] = "s" /\ NeedsQuotes(t)) THEN QuoteCell(t) ELSE t
RECURSIVE JoinTexts(_, _, _)
JoinTexts(ts, sep, i) == IF i > Len(ts) THEN <<>> ELSE (IF i > 1 THEN sep ELSE <<>>) \o ts[i] \o JoinTexts(ts, sep, i + 1)
RecordOut(vs, h, st) == JoinTexts([i \in 1..Len(vs) |-> CellOut(vs[i], h, st)], <<44>>, 1)
Eol(st) == IF st.crlf THEN <<13, 10>> ELSE <<10>>
WriteCSV(hd, rows, h, st) ==
    JoinTexts(<<RecordOut([i \in 1..Len(hd) |-> Str(hd[i])], h, st)>> \o [i \in 1..Len(rows) |-> RecordOut(rows[i], h, st)], Eol(st), 1) \o (IF st.last THEN Eol(st) ELSE <<>>)
\* the tables that CSV text can carry: every column of one type (or null), a string column starts with a text
\* that is no value of another type and has no text that stands for null
ColType(v) == CASE v = Null -> "" [] IsNum(v) -> "number" [] v[1] = "b" -> "boolean" [] v[1] = "d" -> "datetime" [] OTHER -> "string"
Carries(rows, c, h, st) ==
    LET col == [r \in 1..Len(rows) |-> rows[r][c]]
        ts == SelectSeq([r \in 1..Len(rows) |-> ColType(col[r])], LAMBDA x : x # "")
        texts == SelectSeq([r \in 1..Len(rows) |-> IF col[r][1] = "s" THEN col[r][2] ELSE <<>>], LAMBDA x : x # <<>>)
    IN /\ \A i, j \in 1..Len(ts) : ts[i] = ts[j]
       /\ \A r \in 1..Len(rows) : col[r] # Str(NullT)
       /\ (ts # <<>> /\ ts[1] = "string" => /\ texts # <<>> => CellType(texts[1]) = "string"
                                            /\ st.null = NullT)
       /\ (ts = <<>> => st.null = NullT)
CarriesAll(hd, rows, h, st) ==
    /\ \A c \in 1..Len(hd) : Carries(rows, c, h, st)
    /\ \A i, j \in 1..Len(hd) : i # j => hd[i] # hd[j]
    \* a record that is an empty line is none
    /\ (Len(hd) = 1 /\ ~st.quote => st.null # <<>> /\ hd[1] # <<>>)
ReadCSV(t, h) == LET r == Cells(t, 1, "start", <<>>, <<>>, <<>>) IN IF r[1] = "open" THEN OpenR ELSE ParseCSV(h, r[2])
\* the result r holds exactly these rows
IsTable(r, hd, rows) ==
    /\ r.k = "ok"
    /\ Len(Items(r.h, r.v)) = Len(rows)
    /\ \A i \in 1..Len(rows) :
        LET ps == Items(r.h, Items(r.h, r.v)[i])
        IN Len(ps) = Len(hd) /\ \A c \in 1..Len(hd) : ps[c][1] = hd[c] /\ TypeOf(ps[c][2]) = TypeOf(rows[i][c]) /\ Compare(ps[c][2], rows[i][c], r.h) = 0
=============================================================================
