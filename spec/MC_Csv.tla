--------------------------------- MODULE MC_Csv ---------------------------------
(* What is written as CSV reads back with the same types: all small typed tables in    *)
(* every style.  (NoQuote: quotes inside cells are not doubled when written.)            *)
EXTENDS CSV, TLC

CONSTANTS Rows, Cols, Cells1, Fault
VARIABLES tab, st, n
HalfV == <<"f", 0, <<1>>, -1>>
Pool == [null |-> Null, one |-> <<"n", 1>>, half |-> HalfV, yes |-> Bool(TRUE), no |-> Bool(FALSE), day |-> <<"d", 738945, 0, 0>>, time |-> <<"d", 738945, 45005250, 0>>,
         a |-> Str(<<97>>), digit |-> Str(<<49>>), empty |-> Str(<<>>), quote |-> Str(<<97, 34, 44, 34>>), line |-> Str(<<120, 10, 13, 10>>), sp |-> Str(<<32, 97>>),
         baddate |-> Str(<<50, 48, 50, 52, 45, 48, 50, 45, 51, 48>>), day1 |-> Str(<<50, 48, 50, 52, 45, 48, 50, 45, 49, 48>>), q |-> Str(<<34>>), nulls |-> Str(NullT)]
Styles == [quote : BOOLEAN, crlf : BOOLEAN, last : BOOLEAN, null : {<<>>, NullT}]
Init == st \in Styles /\ tab = <<>> /\ n = 0
Next == \/ n = 0 /\ Len(tab) < Rows /\ \E r \in [1..Cols -> Cells1] : tab' = Append(tab, r) /\ UNCHANGED <<st, n>>
        \/ n = 0 /\ n' = 1 /\ UNCHANGED <<tab, st>>
Spec == Init /\ [][Next]_<<tab, st, n>>
Heads == {<<<<97>>, <<98>>>>, <<<<34, 44>>, <<>>>>}
Vals == [r \in 1..Len(tab) |-> [c \in 1..Cols |-> Pool[tab[r][c]]]]
Bare(t) == IF Fault = "NoQuote" THEN SelectSeq(t, LAMBDA c : c # 34) ELSE t
RoundTrip == n = 1 => \A hd0 \in Heads :
    LET hd == SubSeq(hd0, 1, Cols)
    IN CarriesAll(hd, Vals, <<>>, st) => IsTable(ReadCSV(Bare(WriteCSV(hd, Vals, <<>>, st)), <<>>), hd, Vals)
=============================================================================
