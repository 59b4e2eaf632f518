-------------------------------- MODULE MC_Heap --------------------------------
(* Histories of library calls on a small heap of aliased containers: the calls that   *)
(* are not mutators change nothing, a mutator changes the passed container only, a     *)
(* failing call changes nothing, copies and slices are new containers, and every       *)
(* container stays a well-formed sequence or map.                                      *)
EXTENDS Library

CONSTANTS MaxCalls, MaxHeap, MaxLen

N(k) == <<"n", k>>
\* array 1 holds array 2 and the object 3, which holds array 2
H0 == << <<"a", <<<<"a", 2>>, <<"o", 3>>>>>>, <<"a", <<N(2), N(1)>>>>, <<"o", <<<<<<97>>, <<"a", 2>>>>>>>> >>
Mutators == {"arrayDelete", "arrayExtend", "arrayPop", "arrayPush", "arraySet", "arrayShift", "arraySort", "objectAssign", "objectDelete", "objectSet"}
Makers == {"arrayCopy", "arrayNew", "arrayNewSize", "arraySlice", "objectCopy", "objectKeys", "objectNew"}
Readers == {"arrayGet", "arrayIndexOf", "arrayLastIndexOf", "arrayLength", "objectGet", "objectHas", "systemCompare", "systemBoolean", "systemType"}
Fs == Mutators \cup Makers \cup Readers

VARIABLES h, prev, call, res, n
vars == <<h, prev, call, res, n>>
Refs(hh) == {<<hh[i][1], i>> : i \in 1..Len(hh)}
Keys == {Str(<<97>>), Str(<<98>>)}
Small == {N(-1), N(0), N(1), N(2), Null}
ArgLists(f, hh) ==
    LET R == Refs(hh)
        A == {r \in R : r[1] = "a"}
    IN CASE f \in {"arrayCopy", "arrayLength", "arrayPop", "arrayShift", "arraySort", "objectCopy", "objectKeys", "systemBoolean", "systemType"} -> {<<r>> : r \in R} \cup {<<>>}
         [] f \in {"arrayGet", "arrayDelete"} -> {<<r, i>> : r \in A, i \in Small} \cup {<<Null, N(0)>>}
         [] f = "arraySlice" -> {<<r, i, j>> : r \in A, i \in {N(0), N(1)}, j \in Small}
         [] f = "arraySet" -> {<<r, i, v>> : r \in A, i \in Small, v \in {N(7), <<"a", 2>>}}
         [] f \in {"arrayExtend", "objectAssign", "systemCompare"} -> {<<r, s>> : r \in R, s \in R}
         [] f \in {"arrayPush", "arrayIndexOf", "arrayLastIndexOf"} -> {<<r, v>> : r \in A, v \in {N(1), <<"a", 2>>}} \cup {<<r>> : r \in A}
         [] f = "arrayNew" -> {<<>>, <<N(1), <<"a", 2>>>>}
         [] f = "arrayNewSize" -> {<<N(2), <<"a", 2>>>>, <<N(-1)>>}
         [] f \in {"objectGet", "objectHas", "objectDelete"} -> {<<r, k>> : r \in R, k \in Keys}
         [] f = "objectSet" -> {<<r, k, v>> : r \in R, k \in Keys, v \in {N(5), <<"a", 2>>}}
         [] OTHER -> {<<Str(<<97>>), N(1), Str(<<98>>), <<"a", 2>>>>, <<N(1), N(2)>>}
Init == h = H0 /\ prev = H0 /\ call = <<"none", <<>>>> /\ res = Ok(Null, H0) /\ n = 0
Next == /\ n < MaxCalls
        /\ \E f \in Fs : \E args \in ArgLists(f, h) :
             LET r == LibCall(f, args, h)
             IN /\ r.k # "open"
                /\ Len(r.h) <= MaxHeap /\ \A i \in 1..Len(r.h) : Len(r.h[i][2]) <= MaxLen
                /\ h' = r.h /\ prev' = h /\ call' = <<f, args>> /\ res' = r /\ n' = n + 1
Spec == Init /\ [][Next]_vars

f0 == call[1]
Arg1 == call[2][1][2]
WellFormed == \A i \in 1..Len(h) : h[i][1] = "o" => \A j, k \in 1..Len(h[i][2]) : h[i][2][j][1] = h[i][2][k][1] => j = k
Frame == /\ (f0 \notin Mutators => SubSeq(h, 1, Len(prev)) = prev)
         /\ (f0 \in Mutators => Len(h) = Len(prev) /\ \A i \in 1..Len(h) : h[i] # prev[i] => i = Arg1)
         /\ (f0 \in Mutators \cup Readers => Len(h) = Len(prev))
         /\ (res.k = "fail" => h = prev)
Fresh == f0 \in Makers /\ res.k = "ok" => Len(h) = Len(prev) + 1 /\ res.v[2] = Len(h)
\* the reference sequences and maps, said in terms of positions and keys
Before == prev[Arg1][2]
After == h[Arg1][2]
IntOf(v) == v[2]
Arr == res.k = "ok" /\ f0 # "none" /\ call[2] # <<>> /\ call[2][1][1] = "a"
Obj == res.k = "ok" /\ f0 # "none" /\ call[2] # <<>> /\ call[2][1][1] = "o"
Has(ps, k) == \E i \in 1..Len(ps) : ps[i][1] = k
ValAt(ps, k) == (CHOOSE p \in {ps[i] : i \in 1..Len(ps)} : p[1] = k)[2]
Sequences0 ==
    /\ (Arr /\ f0 = "arrayPush" => Len(After) = Len(Before) + Len(call[2]) - 1 /\ SubSeq(After, 1, Len(Before)) = Before /\ res.v = call[2][1])
    /\ (Arr /\ f0 = "arrayPop" => Append(After, res.v) = Before)
    /\ (Arr /\ f0 = "arrayShift" => <<res.v>> \o After = Before)
    /\ (Arr /\ f0 = "arraySet" => Len(After) = Len(Before) /\ \A i \in 1..Len(After) : After[i] = IF i = IntOf(call[2][2]) + 1 THEN call[2][3] ELSE Before[i])
    /\ (Arr /\ f0 = "arrayDelete" => Len(After) = Len(Before) - 1
          /\ \A i \in 1..Len(After) : After[i] = Before[IF i <= IntOf(call[2][2]) THEN i ELSE i + 1])
    /\ (Arr /\ f0 = "arrayExtend" => After = Before \o prev[call[2][2][2]][2])
    /\ (Arr /\ f0 = "arraySort" => /\ \A i \in 1..(Len(After) - 1) : Compare(After[i], After[i + 1], h) <= 0
                                   /\ \A v \in {Before[i] : i \in 1..Len(Before)} :
                                        Cardinality({i \in 1..Len(Before) : Before[i] = v}) = Cardinality({i \in 1..Len(After) : After[i] = v}))
    /\ (Arr /\ f0 = "arraySlice" => LET e == IF call[2][3] = Null THEN Len(Before) ELSE IntOf(call[2][3])
                                    IN Len(h[Len(h)][2]) = MaxI(0, e - IntOf(call[2][2]))
                                       /\ \A i \in 1..Len(h[Len(h)][2]) : h[Len(h)][2][i] = Before[IntOf(call[2][2]) + i])
    /\ (Arr /\ f0 = "arrayIndexOf" /\ IntOf(res.v) >= 0 => Compare(Before[IntOf(res.v) + 1], call[2][2], h) = 0)
Maps ==
    /\ (Obj /\ f0 = "objectSet" => Has(After, call[2][2][2]) /\ ValAt(After, call[2][2][2]) = call[2][3]
                                   /\ \A i \in 1..Len(Before) : Before[i][1] # call[2][2][2] => After[i] = Before[i])
    /\ (Obj /\ f0 = "objectDelete" => ~Has(After, call[2][2][2]) /\ \A i \in 1..Len(Before) : Before[i][1] # call[2][2][2] => Has(After, Before[i][1]))
    /\ (Obj /\ f0 = "objectHas" => res.v = Bool(Has(Before, call[2][2][2])))
    /\ (Obj /\ f0 = "objectAssign" => \A k \in {<<97>>, <<98>>} : LET o == prev[call[2][2][2]][2]
                                       IN IF Has(o, k) THEN Has(After, k) /\ ValAt(After, k) = ValAt(o, k) ELSE Has(After, k) = Has(Before, k))
\* a call with a wrong-typed or out-of-range argument has its failure value
\* (a comparison that does not end has no result either)
FailureValue == res.k = "fail" /\ (Validate(Sigs[f0].a, call[2], 1, prev) = Bad \/ f0 \notin {"arrayIndexOf", "arrayLastIndexOf"}) => res.v = (CASE f0 \in {"arrayIndexOf", "arrayLastIndexOf"} -> Minus1 [] f0 = "arrayLength" -> NZero
                                             [] f0 = "objectHas" -> Bool(FALSE) [] f0 = "objectGet" /\ Len(call[2]) >= 3 -> call[2][3] [] OTHER -> Null)
=============================================================================
