-------------------------------- MODULE Machine --------------------------------
(* The BareScript execution machine.                                             *)
(*                                                                               *)
(* A program P is a record                                                       *)
(*   codes  statement lists; statements refer to other lists by index            *)
(*   fns    script functions [name, args, last, code]                            *)
(*   main   index of the top-level statement list (0: P.expr is evaluated)       *)
(*   glob   caller-supplied globals, <<name, value>>;  heap  their containers    *)
(*   lim    statement limit (0: none);  debug, haslog  options                   *)
(*   inj    the library is injected into the globals (script execution)          *)
(*   bi     the built-in expression functions are available                      *)
(*   names  <<string, text>> of the names that occur                             *)
(*   exprs  <<text, <<"bad">> or expression>> the expression texts that occur     *)
(*   base, prefix, files   include resolution; fetch  "no" function to fetch with,  *)
(*          "yes", or "quiet" (the locations are not observed)                    *)
(* Statements: <<"expr", name or "", e>> <<"jump", l>> <<"jumpif", l, e>>          *)
(*   <<"label", l>> <<"return">> <<"returne", e>> <<"function", i>>                *)
(*   <<"include", <<system?, url>>...>>                                          *)
(* and the structured statements <<"if", <<cond, list>>..., else list or 0>>       *)
(*   <<"while", e, list>> <<"for", value, index or "", e, list>> <<"break">>       *)
(*   <<"continue">>                                                              *)
(* Expressions: <<"num", v>> <<"str", t>> <<"var", n>> <<"call", n, args>>         *)
(*   <<"bin", op, l, r>> <<"un", op, e>> <<"grp", e>>                              *)
(*                                                                               *)
(* The machine state m:                                                          *)
(*   c   control: <<"S">> at a statement, <<"E", e>>, <<"V", v>>, <<"C", f, args,   *)
(*       name>>                                                                  *)
(*   k   continuation (nested pairs)                                             *)
(*   a   activation [code, pc, loc, blk, base, bi]                               *)
(*   h, g  heap, globals;  n  statements started;  nx  the count is left open    *)
(*   o   observable events of the step;  d  call depth                           *)
(*   st  "run" "done" "err" "open";  v  result value / error                      *)
EXTENDS Data, Include, JSONRead, Regex

Push(f, k) == <<f, k>>
ArgOf(s) == [x \in {p[1] : p \in {s[i] : i \in 1..Len(s)}} |-> (CHOOSE p \in {s[i] : i \in 1..Len(s)} : p[1] = x)[2]]

Act(code, loc, base) == [code |-> code, pc |-> 1, loc |-> loc, blk |-> <<>>, base |-> base, bi |-> FALSE]

Start(P) ==
    [c |-> IF P.main = 0 THEN <<"E", P.expr>> ELSE <<"S">>, k |-> <<>>,
     a |-> [Act(IF P.main = 0 THEN 1 ELSE P.main, IF P.loc = <<>> THEN <<>> ELSE <<ArgOf(P.loc[1])>>, P.base) EXCEPT !.bi = P.bi],
     h |-> P.heap, g |-> ArgOf(P.glob), n |-> 0, nx |-> FALSE, o |-> <<>>, d |-> 0, st |-> "run", v |-> Null]

Emit(m, e) == [m EXCEPT !.o = Append(@, e)]
Err(m, e) == [m EXCEPT !.st = "err", !.v = e]
OpenM(m) == [m EXCEPT !.st = "open"]
\* <<"unk">>: a value the specification does not know; it may only be passed on
Unk == <<"unk">>
\* <<"unk", "now" | "today", lo, hi>>: an instant between two instants, a midnight between their days; <<"unk", "rnd">>: a number of [0, 1)
\* <<"rx", t>>: a pattern that matches t alone; <<"pct", t>>: a text that percent-decodes to t
IsUnk(v) == v[1] \in {"unk", "rx", "pct"}
Ret(m, v) == IF v = Open THEN OpenM(m) ELSE [m EXCEPT !.c = <<"V", IF v[1] = "near" THEN AnyNum ELSE v>>]

\* ---- names ------------------------------------------------------------------------
Absent == <<"absent">>
NameOf(P, t) == \* the name with a text ("" when it is none of the program's names)
    LET s == {i \in 1..Len(P.names) : P.names[i][2] = t} IN IF s = {} THEN "" ELSE P.names[CHOOSE i \in s : TRUE][1]
Global(P, m, n) == IF n \in DOMAIN m.g THEN m.g[n] ELSE IF P.inj /\ n \in LibNames THEN <<"lib", n>> ELSE Absent
Lookup(P, m, n) == IF m.a.loc # <<>> /\ n \in DOMAIN m.a.loc[1] THEN m.a.loc[1][n] ELSE Global(P, m, n)
SetGlobal(m, n, v) == [m EXCEPT !.g = (n :> v) @@ @]
SetVar(m, n, v) == IF m.a.loc = <<>> THEN SetGlobal(m, n, v) ELSE [m EXCEPT !.a.loc = <<(n :> v) @@ m.a.loc[1]>>]
FunctionNamed(P, m, n) ==
    LET v == Lookup(P, m, n)
    IN IF v # Absent THEN v ELSE IF m.a.bi /\ n \in DOMAIN ExprNames THEN <<"lib", ExprNames[n]>> ELSE Absent

\* ---- operators ---------------------------------------------------------------------
\* <<"none">> (no result) is null for every operator
OrNull(v) == IF v = NoVal THEN Null ELSE v
Plus(a, b, h) ==
    IF IsNum(a) /\ IsNum(b) THEN NAdd(a, b)
    ELSE IF a[1] = "s" THEN TextVal(a[2] \o VText(b, h))
    ELSE IF b[1] = "s" THEN TextVal(VText(a, h) \o b[2])
    ELSE IF a[1] = "d" /\ IsNum(b) THEN (IF b[1] \in {"inf", "nan"} THEN NoVal ELSE IF b = AnyNum \/ ~IsIntegral(b) THEN Open ELSE DTPlus(a, b))
    ELSE IF b[1] = "d" /\ IsNum(a) THEN (IF a[1] \in {"inf", "nan"} THEN NoVal ELSE IF a = AnyNum \/ ~IsIntegral(a) THEN Open ELSE DTPlus(b, a))
    ELSE NoVal
CmpOp(op, c) ==
    IF c = 2 THEN Null ELSE IF c = 3 THEN Open
    ELSE Bool(CASE op = "==" -> c = 0 [] op = "!=" -> c # 0 [] op = "<" -> c < 0 [] op = "<=" -> c <= 0 [] op = ">" -> c > 0 [] OTHER -> c >= 0)
BinOp(op, a, b, h) ==
    IF op \in {"==", "!=", "<", "<=", ">", ">="} THEN CmpOp(op, Compare(a, b, h))
    ELSE IF op = "+" THEN OrNull(Plus(a, b, h))
    ELSE IF op = "-" /\ a[1] = "d" /\ b[1] = "d" THEN DTMinus(a, b)
    ELSE IF ~IsNum(a) \/ ~IsNum(b) THEN Null
    ELSE OrNull(CASE op = "-" -> NSub(a, b) [] op = "*" -> NMul(a, b) [] op = "/" -> NDiv(a, b) [] op = "%" -> NMod(a, b)
                  [] OTHER -> NPow(a, b))
UnOp(op, a, h) == IF op = "!" THEN Bool(~Truthy(a, h)) ELSE IF IsNum(a) THEN NNeg(a) ELSE Null

\* ---- statements ----------------------------------------------------------------------
LabelIx(code, l) ==
    LET s == {i \in 1..Len(code) : code[i][1] = "label" /\ code[i][2] = l} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Next1(m) == [m EXCEPT !.a.pc = @ + 1, !.c = <<"S">>]
JumpTo(P, m, l) ==
    LET ix == LabelIx(P.codes[m.a.code], l) IN IF ix = 0 THEN Err(m, <<"label", l>>) ELSE [m EXCEPT !.a.pc = ix + 1, !.c = <<"S">>]
EvalIn(m, e, f) == [m EXCEPT !.c = <<"E", e>>, !.k = Push(f, @)]
\* enter a nested statement list; at its end the block entry says what happens
Enter(m, list, entry) == [m EXCEPT !.a.blk = Push(entry, @), !.a.code = list, !.a.pc = 1, !.c = <<"S">>]
\* leave the innermost block: continue at its statement + 1
Leave(m) == LET b == m.a.blk[1] IN [m EXCEPT !.a.code = b[2], !.a.pc = b[3] + 1, !.a.blk = m.a.blk[2], !.c = <<"S">>]
RECURSIVE ToLoop(_)
ToLoop(m) == IF m.a.blk[1][1] = "if" THEN ToLoop(Leave(m)) ELSE m
\* next iteration of the innermost loop (m.a.blk[1] is its entry)
LoopNext(P, m) ==
    LET b == m.a.blk[1]
        s == P.codes[b[2]][b[3]]
        l == Leave(m)
        at == [l EXCEPT !.a.pc = b[3]]
    IN IF b[1] = "while" THEN EvalIn(at, s[2], <<"swhile">>)
       ELSE LET vs == b[4] ix == b[5] + 1
                now == Items(m.h, vs)   \* the array may have changed: it has as many turns as it had elements
            IN IF ix > b[6] THEN (IF s[3] = "" THEN l ELSE SetVar(l, s[3], <<"n", b[6]>>))   \* counted past the end
               ELSE IF ix > Len(now) /\ P.debug THEN OpenM(m)
               ELSE LET m1 == SetVar(at, s[2], IF ix > Len(now) THEN Null ELSE now[ix])
                        m2 == IF s[3] = "" THEN m1 ELSE SetVar(m1, s[3], <<"n", ix - 1>>)
                    IN Enter(m2, s[5], <<"for", b[2], b[3], vs, ix, b[6]>>)

IncludeStep(P, m, s, i) == \* perform the i-th include of statement s
    IF i > Len(s[2]) THEN Next1(m)
    ELSE LET inc == s[2][i]
             url == IF inc[1] THEN (IF P.prefix = <<>> THEN Rebase(m.a.base, inc[2]) ELSE Resolve(P.prefix[1], inc[2])) ELSE Rebase(m.a.base, inc[2])
             fs == {j \in 1..Len(P.files) : P.files[j][1] = url}
             m1 == IF P.fetch = "yes" THEN Emit(m, <<"U", url>>) ELSE m
         IN IF url = <<-2>> THEN OpenM(m)
            ELSE IF P.fetch = "no" \/ fs = {} THEN Err(m1, <<"include", url>>)
            ELSE LET f == P.files[CHOOSE j \in fs : TRUE]
                 IN IF f[2] = "fail" THEN Err(m1, <<"include", url>>)
                    ELSE IF f[2] = "syntax" THEN Err(m1, <<"parser", url>>)
                    ELSE [m1 EXCEPT !.k = Push(<<"incl", m.a, i>>, @), !.a = Act(f[3], <<>>, <<url>>), !.c = <<"S">>]

DoStmt(P, m) ==
    LET s == P.codes[m.a.code][m.a.pc] t == s[1]
    IN CASE t = "expr" -> EvalIn(m, s[3], IF s[2] = "" THEN <<"drop">> ELSE <<"asg", s[2]>>)
         [] t = "jump" -> JumpTo(P, m, s[2])
         [] t = "jumpif" -> EvalIn(m, s[3], <<"jif", s[2]>>)
         [] t = "label" -> Next1(m)
         [] t = "return" -> [m EXCEPT !.c = <<"V", Null>>]
         [] t = "returne" -> EvalIn(m, s[2], <<"ret">>)
         [] t = "function" -> Next1([SetGlobal(m, P.fns[s[2]].name, <<"fn", Len(m.h) + 1>>) EXCEPT !.h = Append(@, <<"fs", s[2], m.a.base>>)])
         [] t = "include" -> IncludeStep(P, m, s, 1)
         [] t = "if" -> EvalIn(m, s[2][1][1], <<"sif", 1>>)
         [] t = "while" -> EvalIn(m, s[2], <<"swhile">>)
         [] t = "for" -> EvalIn(m, s[4], <<"sfor">>)
         [] t = "break" -> Leave(ToLoop(m))
         [] OTHER -> LoopNext(P, ToLoop(m))

\* start one statement: the limit is exact
StmtStep(P, m) ==
    LET m1 == [m EXCEPT !.n = @ + 1, !.o = <<>>]
    IN IF P.lim > 0 /\ m1.n > P.lim THEN (IF m.nx THEN OpenM(m) ELSE Err(m1, <<"budget">>)) ELSE DoStmt(P, m1)

\* ---- calls ------------------------------------------------------------------------------
\* a failing call: reported in debug mode; the call has the failure value.
\* (a failing callback of a library function is left open)
Failed(P, m, name, v) == IF name = "" THEN OpenM(m) ELSE Ret(IF P.debug /\ P.haslog THEN Emit(m, <<"F", name>>) ELSE m, v)
BindArgs(f, args) == \* <<positional values, rest>>
    [i \in 1..Len(f.args) |-> IF f.last /\ i = Len(f.args) THEN <<"rest">> ELSE IF i <= Len(args) THEN args[i] ELSE Null]
CallScript(P, m, cell, args) ==
    LET f == P.fns[cell[2]]
        vals == BindArgs(f, args)
        nf == Len(f.args)
        hasRest == f.last /\ nf > 0
        rest == IF Len(args) >= nf THEN SubSeq(args, nf, Len(args)) ELSE <<>>
        h1 == IF hasRest THEN Append(m.h, <<"a", rest>>) ELSE m.h
        final == IF hasRest THEN [vals EXCEPT ![nf] = <<"a", Len(m.h) + 1>>] ELSE vals
        loc == FoldLeft(LAMBDA acc, i : (f.args[i] :> final[i]) @@ acc, <<>>, Idx(nf))
    IN IF m.d >= 120 THEN OpenM(m)
       ELSE [m EXCEPT !.h = h1, !.k = Push(<<"call", m.a>>, @), !.a = Act(f.code, <<loc>>, cell[3]), !.c = <<"S">>, !.d = @ + 1]

HostCall(P, m, f, args, name) ==
    CASE f = "hlog" -> Ret(Emit(m, <<"O", args, m.h>>), IF Len(args) > 0 THEN args[1] ELSE Null)
      [] f = "hargs" -> [m EXCEPT !.h = Append(@, <<"a", args>>), !.c = <<"V", <<"a", Len(m.h) + 1>>>>]
      [] f = "hfail" -> Failed(P, m, name, Null)
      \* calls its first argument with the others
      [] f = "hcall" -> IF args = <<>> \/ ~IsFun(args[1]) THEN Failed(P, m, name, Null) ELSE [m EXCEPT !.c = <<"C", args[1], Tail(args), name>>]
      [] f = "hfail7" -> Failed(P, m, name, <<"n", 7>>)
      [] f = "hrt" -> Err(m, <<"other">>)
      [] OTHER -> OpenM(m)

\* machine-level library functions
SortStart(m, v, f, items) ==
    IF Len(items) < 2 THEN Ret(m, v)
    ELSE [m EXCEPT !.nx = TRUE, !.k = Push(<<"sort", v, f, <<items[1]>>, 2, 1, items>>, @), !.c = <<"C", f, <<items[2], items[1]>>, "">>]

LogText(P, m, v, on) ==
    IF ~on \/ ~P.haslog THEN Ret(m, Null)
    ELSE LET t == VText(v, m.h) IN Ret(Emit(m, IF BadText(t) THEN <<"LX">> ELSE <<"L", t>>), Null)
NoText(v, h) == LET t == VText(v, h) IN \E i \in 1..Len(t) : t[i] = -1

\* ---- data functions that evaluate an expression for every row --------------------------
(* frame <<"rows", job, rows, i, values, arrays, globals, activation>>: row i is being      *)
(* evaluated; the fields of the row are local variables, the variables overlay a copy       *)
(* of the globals, the built-in expression functions are available                          *)
ExprOf(P, t) == LET s == {i \in 1..Len(P.exprs) : P.exprs[i][1] = t} IN IF s = {} THEN <<"unknown">> ELSE P.exprs[CHOOSE i \in s : TRUE][2]
RowLocals(P, m, row) ==
    LET ps == Items(m.h, row)
    IN FoldLeft(LAMBDA acc, p : LET n == NameOf(P, p[1]) IN IF n = "" THEN acc ELSE (n :> p[2]) @@ acc, <<>>, ps)
Overlay(P, m, vars) == IF vars = Null THEN m.g ELSE RowLocals(P, m, vars) @@ m.g
ExprFor(P, job, i) == ExprOf(P, IF i <= job.nright THEN job.rexpr ELSE job.lexpr)
EvalRow(P, m, job, rows, i, vals, arrs, g0, a0) ==
    [m EXCEPT !.k = Push(<<"rows", job, rows, i, vals, arrs, g0, a0, Items(m.h, rows[i])>>, @),
              !.a = [Act(1, <<RowLocals(P, m, rows[i])>>, a0.base) EXCEPT !.bi = TRUE],
              !.c = <<"E", ExprFor(P, job, i)>>]
RowsDone(P, m, job, rows, vals) ==
    CASE job.f = "dataFilter" ->
            LET r == NewArr(LET ks == SelectSeq(Idx(Len(rows)), LAMBDA i : Truthy(vals[i], m.h)) IN [i \in 1..Len(ks) |-> rows[ks[i]]], m.h)
            IN IF \E i \in 1..Len(vals) : vals[i][1] = "any" THEN OpenM(m) ELSE Ret([m EXCEPT !.h = r.h], r.v)
      [] job.f = "dataCalculatedField" -> Ret(m, job.arr)
      [] OTHER ->
            LET nr == job.nright
                r == JoinRows(m.h, SubSeq(rows, nr + 1, Len(rows)), SubSeq(rows, 1, nr), SubSeq(vals, nr + 1, Len(rows)), SubSeq(vals, 1, nr), job.isleft)
            IN IF r.k = "open" THEN OpenM(m) ELSE Ret([m EXCEPT !.h = r.h], r.v)
\* (the arrays of the call must not change meanwhile: left open)
RowsStart(P, m, job, rows, arrs, vars, name) ==
    LET es == {ExprOf(P, job.lexpr)[1], ExprOf(P, job.rexpr)[1]}
        objs == \A i \in 1..Len(rows) : rows[i][1] = "o"
    IN IF "unknown" \in es \/ ~objs \/ m.d >= 120 THEN OpenM(m)
       ELSE IF "bad" \in es THEN Failed(P, m, name, Null)
       ELSE IF rows = <<>> THEN RowsDone(P, m, job, rows, <<>>)
       ELSE EvalRow(P, [m EXCEPT !.g = Overlay(P, m, vars), !.d = @ + 1], job, rows, 1, <<>>, arrs, IF vars = Null THEN <<>> ELSE <<m.g>>, m.a)
DataExprLib == {"dataCalculatedField", "dataFilter", "dataJoin"}
DataDispatch(P, m, f, V, name) ==
    LET items == Items(m.h, V[1])
        job(l, r, nr, fld, left) == [f |-> f, lexpr |-> l, rexpr |-> r, nright |-> nr, arr |-> V[1], field |-> fld, isleft |-> left]
    IN CASE f = "dataFilter" -> RowsStart(P, m, job(V[2][2], V[2][2], 0, <<>>, FALSE), items, <<<<V[1], items>>>>, V[3], name)
         [] f = "dataCalculatedField" -> RowsStart(P, m, job(V[3][2], V[3][2], 0, V[2][2], FALSE), items, <<<<V[1], items>>>>, V[4], name)
         [] OTHER ->
               LET right == Items(m.h, V[2])
               IN RowsStart(P, m, job(V[3][2], IF V[4] = Null THEN V[3][2] ELSE V[4][2], Len(right), <<>>, V[5][2]), right \o items,
                            <<<<V[1], items>>, <<V[2], right>>>>, V[6], name)
RowReturn(P, p, f, v) == \* p: the frame f is popped
    LET job == f[2] rows == f[3] i == f[4] vals == Append(f[5], v) arrs == f[6]
        same == (\A j \in 1..Len(arrs) : Items(p.h, arrs[j][1]) = arrs[j][2]) /\ Items(p.h, rows[i]) = f[9]
        p1 == IF job.f = "dataCalculatedField" THEN [p EXCEPT !.h = SetItems(@, rows[i], PairSet(Items(p.h, rows[i]), job.field, v))] ELSE p
        end == [p1 EXCEPT !.a = f[8], !.d = @ - 1, !.g = IF f[7] = <<>> THEN @ ELSE f[7][1]]
    IN IF ~same THEN OpenM(p)
       ELSE IF i < Len(rows) THEN EvalRow(P, p1, job, rows, i + 1, vals, arrs, f[7], f[8])
       ELSE RowsDone(P, end, job, rows, vals)

\* ---- fetching ------------------------------------------------------------------------
\* the location of the script file that is running (not the one that defines the running function)
RECURSIVE FileBase(_, _)
FileBase(a, k) == IF a.loc = <<>> \/ k = <<>> THEN a.base
                  ELSE CASE k[1][1] = "call" -> FileBase(k[1][2], k[2]) [] k[1][1] = "rows" -> FileBase(k[1][8], k[2]) [] OTHER -> FileBase(a, k[2])
KeyUrl == <<117, 114, 108>>
KeyBody == <<98, 111, 100, 121>>
KeyHeaders == <<104, 101, 97, 100, 101, 114, 115>>
\* <<"url", text>>, <<"bad">> or <<"open">> of a request
FetchUrl(v, h) ==
    IF v[1] = "s" THEN <<"url", v[2]>>
    ELSE IF v[1] # "o" THEN (IF v[1] \in {"any", "uk"} THEN <<"open">> ELSE <<"bad">>)
    ELSE LET ps == Items(h, v)
             bad(p) == CASE p[1] = KeyUrl -> p[2][1] # "s" [] p[1] = KeyBody -> p[2][1] # "s"
                         [] p[1] = KeyHeaders -> p[2] # Str(<<>>) /\ (p[2][1] # "o" \/ (\E q \in {Items(h, p[2])[i] : i \in 1..Len(Items(h, p[2]))} : q[2][1] # "s"))
                         [] OTHER -> TRUE
             urls == SelectSeq(ps, LAMBDA p : p[1] = KeyUrl)
         IN IF \E i \in 1..Len(ps) : ps[i][2][1] \in {"any", "uk"} THEN <<"open">>
            ELSE IF urls = <<>> \/ (\E i \in 1..Len(ps) : bad(ps[i])) THEN <<"bad">>
            ELSE <<"url", urls[1][2][2]>>
RECURSIVE FetchAll(_, _, _, _)
FetchAll(P, m, urls, acc) == \* <<machine, responses>>
    IF urls = <<>> THEN <<m, acc>>
    ELSE LET url == urls[1]
             fs == {j \in 1..Len(P.files) : P.files[j][1] = url}
             m1 == IF P.fetch = "yes" THEN Emit(m, <<"U", url>>) ELSE m
             f == IF fs = {} THEN <<url, "fail">> ELSE P.files[CHOOSE j \in fs : TRUE]
             none == P.fetch = "no" \/ f[2] = "fail"
             m2 == IF none /\ P.debug /\ P.haslog THEN Emit(m1, <<"F", "systemFetch">>) ELSE m1
         IN FetchAll(P, m2, Tail(urls), Append(acc, IF none THEN Null ELSE IF Len(f) < 4 THEN Open ELSE Str(f[4])))
SystemFetch(P, m, v, name) ==
    LET one == v[1] # "a"
        reqs == IF one THEN <<v>> ELSE Items(m.h, v)
        us == [i \in 1..Len(reqs) |-> FetchUrl(reqs[i], m.h)]
        base == FileBase(m.a, m.k)
        r == FetchAll(P, m, [i \in 1..Len(us) |-> Rebase(base, us[i][2])], <<>>)
    IN IF \E i \in 1..Len(us) : us[i][1] = "open" THEN OpenM(m)
       ELSE IF \E i \in 1..Len(us) : us[i][1] = "bad" THEN Failed(P, m, name, Null)
       ELSE IF one THEN Ret(r[1], r[2][1])
       ELSE IF \E i \in 1..Len(us) : r[2][i] = Open THEN OpenM(m)
       ELSE LET x == NewArr(r[2], m.h) IN Ret([r[1] EXCEPT !.h = x.h], x.v)

\* functions whose value is not specified (they change nothing and do fail properly)
UnkLib == {"datetimeNow", "datetimeToday", "mathRandom", "regexMatch", "regexMatchAll", "regexNew", "regexReplace", "regexSplit",
           "schemaParse", "schemaParseEx", "schemaTypeModel", "schemaValidate", "schemaValidateTypeModel"}
RelLib == {"regexEscape", "urlEncode", "urlEncodeComponent"}
MachineLib == {"systemLog", "systemLogDebug", "systemGlobalGet", "systemGlobalSet", "systemPartial", "systemFetch", "jsonParse"}
LibDispatch(P, m, f, args, name) ==
    LET s == Sigs[f]
        V == Validate(s.a, args, 1, m.h)
        gen == LET r == LibCall(f, args, m.h)
               IN IF r.k = "open" THEN OpenM(m) ELSE IF r.k = "fail" THEN Failed(P, m, name, r.v) ELSE Ret([m EXCEPT !.h = r.h], r.v)
    IN IF f \in {"arrayIndexOf", "arrayLastIndexOf"} /\ Len(args) >= 2 /\ IsFun(args[2]) THEN
            (IF V = OpenArgs THEN OpenM(m) ELSE IF V = Bad THEN Failed(P, m, name, Minus1)
             ELSE LET items == Items(m.h, V[1])
                      up == f = "arrayIndexOf"
                      ix == IF V[3] = Null THEN Len(items) - 1 ELSE NInt(V[3])
                  IN IF ix >= Len(items) THEN Failed(P, m, name, Minus1)
                     ELSE IF ix < 0 THEN Ret(m, Minus1)
                     ELSE [m EXCEPT !.k = Push(<<"find", V[1], V[2], ix, up>>, @), !.c = <<"C", V[2], <<items[ix + 1]>>, "">>])
       ELSE IF f = "arraySort" /\ Len(args) = 2 /\ IsFun(args[2]) THEN
            (IF V \in {Bad, OpenArgs} THEN gen ELSE SortStart(m, V[1], V[2], Items(m.h, V[1])))
       ELSE IF f \in DataExprLib THEN
            (IF V = Bad THEN Failed(P, m, name, Null) ELSE IF V = OpenArgs THEN OpenM(m) ELSE DataDispatch(P, m, f, V, name))
       ELSE IF f \in DataLib THEN
            (IF V = Bad THEN Failed(P, m, name, Null) ELSE IF V = OpenArgs THEN OpenM(m)
             ELSE LET r == DataCall(f, V, m.h)
                  IN IF r.k = "open" THEN OpenM(m) ELSE IF r.k = "fail" THEN Failed(P, m, name, r.v) ELSE Ret([m EXCEPT !.h = r.h], r.v))
       ELSE IF f \in RelLib THEN
            (IF V = Bad THEN Failed(P, m, name, Null) ELSE IF V = OpenArgs THEN OpenM(m)
             ELSE IF f = "regexEscape" THEN Ret(m, <<"rx", V[1][2]>>)
             ELSE IF \E i \in 1..Len(V[1][2]) : Surrogate(V[1][2][i]) THEN Failed(P, m, name, Null) ELSE Ret(m, <<"pct", V[1][2]>>))
       ELSE IF P.unk /\ f \in UnkLib THEN
            (IF V = Bad THEN Failed(P, m, name, s.f) ELSE IF V = OpenArgs THEN OpenM(m)
             ELSE IF f = "regexNew" /\ V[2] = Null /\ RxOk(V[1][2]) THEN Ret(m, <<"re", V[1][2]>>)
             ELSE IF f = "regexSplit" /\ RxOk(V[1][2]) /\ ~RxEmpty(V[1][2])
                  THEN LET r == NewArr([i \in 1..Len(RxSplit(V[1][2], V[2][2])) |-> Str(RxSplit(V[1][2], V[2][2])[i])], m.h) IN Ret([m EXCEPT !.h = r.h], r.v)
             ELSE IF f = "datetimeNow" THEN Ret(m, <<"unk", "now", P.clock[1], P.clock[2]>>)
             ELSE IF f = "datetimeToday" THEN Ret(m, <<"unk", "today", P.clock[1], P.clock[2]>>)
             ELSE IF f = "mathRandom" THEN Ret(m, <<"unk", "rnd">>)
             ELSE Ret(IF P.debug /\ P.haslog /\ name # "" THEN Emit(m, <<"F?", name>>) ELSE m, Unk))
       ELSE IF f \notin MachineLib THEN gen
       ELSE IF V = Bad THEN Failed(P, m, name, Null)
       ELSE IF V = OpenArgs THEN OpenM(m)
       ELSE CASE f = "systemLog" -> IF P.haslog /\ NoText(V[1], m.h) THEN Failed(P, m, name, Null) ELSE LogText(P, m, V[1], TRUE)
              [] f = "systemLogDebug" -> IF P.haslog /\ P.debug /\ NoText(V[1], m.h) THEN Failed(P, m, name, Null) ELSE LogText(P, m, V[1], P.debug)
              [] f = "systemGlobalGet" ->
                    LET n == NameOf(P, V[1][2]) v == Global(P, m, n)
                    IN IF n = "" THEN (IF P.inj THEN OpenM(m) ELSE Ret(m, V[2])) ELSE Ret(m, IF v = Absent THEN V[2] ELSE v)
              [] f = "systemGlobalSet" ->
                    LET n == NameOf(P, V[1][2])
                    IN IF n = "" THEN OpenM(m) ELSE Ret(SetGlobal(m, n, V[2]), V[2])
              [] f = "systemFetch" -> SystemFetch(P, m, V[1], name)
              [] f = "systemPartial" ->
                    IF V[2][2] = <<>> THEN Failed(P, m, name, Null)
                    ELSE Ret([m EXCEPT !.h = Append(@, <<"fp", V[1], V[2][2]>>)], <<"fn", Len(m.h) + 1>>)
              [] OTHER -> \* jsonParse
                    LET r == ReadJSON(V[1][2], m.h)
                    IN IF r[1] = "bad" THEN Failed(P, m, name, Null) ELSE IF r[1] = "open" THEN OpenM(m) ELSE Ret([m EXCEPT !.h = r[3]], r[2])

DoCall(P, m) ==
    LET f == m.c[2] args == m.c[3] name == m.c[4]
    IN IF f = Open \/ IsUnk(f) THEN OpenM(m)
       ELSE IF (\E i \in 1..Len(args) : IsUnk(args[i])) /\ f # <<"host", "hlog">> THEN OpenM(m)
       ELSE IF f[1] = "lib" THEN LibDispatch(P, m, f[2], args, name)
       ELSE IF f[1] = "host" THEN HostCall(P, m, f[2], args, name)
       ELSE IF f[1] = "fn" THEN
            (LET cell == m.h[f[2]]
             IN IF cell[1] = "fp" THEN [m EXCEPT !.c = <<"C", cell[2], cell[3] \o args, name>>] ELSE CallScript(P, m, cell, args))
       ELSE Failed(P, m, name, Null)

\* ---- expressions ---------------------------------------------------------------------------
DoEval(P, m) ==
    LET e == m.c[2] t == e[1]
    IN CASE t = "num" -> [m EXCEPT !.c = <<"V", e[2]>>]
         [] t = "str" -> [m EXCEPT !.c = <<"V", <<"s", e[2]>>>>]
         [] t = "var" ->
               (CASE e[2] = "null" -> Ret(m, Null) [] e[2] = "true" -> Ret(m, Bool(TRUE)) [] e[2] = "false" -> Ret(m, Bool(FALSE))
                  [] OTHER -> LET v == Lookup(P, m, e[2]) IN Ret(m, IF v = Absent THEN Null ELSE v))
         [] t = "grp" -> [m EXCEPT !.c = <<"E", e[2]>>]
         [] t = "un" -> EvalIn(m, e[3], <<"un", e[2]>>)
         [] t = "bin" -> EvalIn(m, e[3], <<"binl", e[2], e[4]>>)
         [] OTHER -> \* call
               IF e[2] = "if" THEN
                    (IF e[3] = <<>> THEN Ret(m, Null)
                     ELSE EvalIn(m, e[3][1], <<"if", IF Len(e[3]) >= 2 THEN <<e[3][2]>> ELSE <<>>, IF Len(e[3]) >= 3 THEN <<e[3][3]>> ELSE <<>>>>))
               ELSE IF e[3] = <<>> THEN [m EXCEPT !.c = <<"V", Null>>, !.k = Push(<<"args0", e>>, @)]
               ELSE EvalIn(m, e[3][1], <<"args", e, <<>>>>)

\* a value reaches the continuation
DoReturn(P, m) ==
    LET v == m.c[2]
    IN IF m.k = <<>> THEN [m EXCEPT !.st = "done", !.v = v]
       ELSE LET f == m.k[1] t == f[1]
                p == [m EXCEPT !.k = m.k[2]]
            IN CASE IsUnk(v) /\ t \notin {"args", "args0", "asg", "drop", "ret", "call"} -> OpenM(p)
                 [] t \in {"args", "args0"} ->
                      LET e == f[2]
                          vals == IF t = "args0" THEN <<>> ELSE Append(f[3], v)
                      IN IF Len(vals) < Len(e[3]) THEN EvalIn(p, e[3][Len(vals) + 1], <<"args", e, vals>>)
                         ELSE LET fv == FunctionNamed(P, p, e[2])
                              IN IF fv = Absent \/ fv = Null THEN Err(p, <<"other">>) ELSE [p EXCEPT !.c = <<"C", fv, vals, e[2]>>]
                 [] t = "binl" ->
                      IF f[2] = "&&" THEN (IF v[1] = "any" THEN OpenM(p) ELSE IF Truthy(v, p.h) THEN [p EXCEPT !.c = <<"E", f[3]>>] ELSE p)
                      ELSE IF f[2] = "||" THEN (IF v[1] = "any" THEN OpenM(p) ELSE IF Truthy(v, p.h) THEN p ELSE [p EXCEPT !.c = <<"E", f[3]>>])
                      ELSE EvalIn(p, f[3], <<"binr", f[2], v>>)
                 [] t = "binr" -> Ret(p, BinOp(f[2], f[3], v, p.h))
                 [] t = "un" -> IF v[1] = "any" /\ f[2] = "!" THEN OpenM(p) ELSE Ret(p, UnOp(f[2], v, p.h))
                 [] t = "if" ->
                      IF v[1] = "any" THEN OpenM(p)
                      ELSE LET b == IF Truthy(v, p.h) THEN f[2] ELSE f[3] IN IF b = <<>> THEN Ret(p, Null) ELSE [p EXCEPT !.c = <<"E", b[1]>>]
                 [] t = "asg" -> Next1(SetVar(p, f[2], v))
                 [] t = "drop" -> Next1(p)
                 [] t = "jif" -> IF v[1] = "any" THEN OpenM(p) ELSE IF Truthy(v, p.h) THEN JumpTo(P, p, f[2]) ELSE Next1(p)
                 [] t = "ret" -> p
                 [] t = "call" -> [p EXCEPT !.a = f[2], !.d = @ - 1]
                 [] t = "incl" ->
                      LET q == [p EXCEPT !.a = f[2]] IN IncludeStep(P, q, P.codes[q.a.code][q.a.pc], f[3] + 1)
                 [] t = "rows" -> RowReturn(P, p, f, v)
                 [] t = "find" ->
                      IF v[1] = "any" THEN OpenM(p)
                      ELSE IF Truthy(v, p.h) THEN Ret(p, <<"n", f[4]>>)
                      ELSE LET ix == IF f[5] THEN f[4] + 1 ELSE f[4] - 1
                               items == Items(p.h, f[2])
                           IN IF ix < 0 \/ ix >= Len(items) THEN Ret(p, Minus1)
                              ELSE [p EXCEPT !.k = Push(<<"find", f[2], f[3], ix, f[5]>>, @), !.c = <<"C", f[3], <<items[ix + 1]>>, "">>]
                 [] t = "sort" -> \* <<"sort", array, function, sorted, i, j, items>>: comparing items[i] with sorted[j]
                      LET srt == f[4] i == f[5] j == f[6] items == f[7]
                          neg == (IsNum(v) /\ NCmp(v, NZero) < 0)
                          put(k) == SubSeq(srt, 1, k) \o <<items[i]>> \o SubSeq(srt, k + 1, Len(srt))
                          again(s2, i2, j2) == [p EXCEPT !.k = Push(<<"sort", f[2], f[3], s2, i2, j2, items>>, @),
                                                         !.c = <<"C", f[3], <<items[i2], s2[j2]>>, "">>]
                          done(s2) == IF i < Len(items) THEN again(s2, i + 1, Len(s2))
                                      ELSE IF Items(p.h, f[2]) # items THEN OpenM(p)
                                      ELSE Ret([p EXCEPT !.h = SetItems(@, f[2], s2)], f[2])
                      IN IF ~(IsNum(v) \/ v[1] = "b") \/ v[1] \in {"nan", "any"} THEN OpenM(p)
                         ELSE IF neg THEN (IF j = 1 THEN done(put(0)) ELSE again(srt, i, j - 1))
                         ELSE done(put(j))
                 [] t = "sif" ->
                      LET s == P.codes[p.a.code][p.a.pc]
                          b == <<"if", p.a.code, p.a.pc>>
                      IN IF v[1] = "any" THEN OpenM(p)
                         ELSE IF Truthy(v, p.h) THEN Enter(p, s[2][f[2]][2], b)
                         ELSE IF f[2] < Len(s[2]) THEN EvalIn(p, s[2][f[2] + 1][1], <<"sif", f[2] + 1>>)
                         ELSE IF s[3] # 0 THEN Enter(p, s[3], b)
                         ELSE Next1(p)
                 [] t = "swhile" ->
                      IF v[1] = "any" THEN OpenM(p)
                      ELSE IF Truthy(v, p.h) THEN Enter(p, P.codes[p.a.code][p.a.pc][3], <<"while", p.a.code, p.a.pc>>) ELSE Next1(p)
                 [] OTHER -> \* sfor
                      IF v[1] # "a" THEN (IF P.debug THEN OpenM(p) ELSE Next1(p))
                      ELSE LET n == Len(Items(p.h, v))
                           IN IF n = 0 THEN Next1(p)
                              ELSE LoopNext(P, [p EXCEPT !.a.blk = Push(<<"for", p.a.code, p.a.pc, v, 0, n>>, @)])

Micro(P, m) ==
    CASE m.c[1] = "E" -> DoEval(P, m)
      [] m.c[1] = "V" -> DoReturn(P, m)
      [] m.c[1] = "C" -> DoCall(P, m)
      [] OTHER -> \* the end of a statement list
            IF m.a.blk = <<>> THEN [m EXCEPT !.c = <<"V", Null>>]
            ELSE IF m.a.blk[1][1] = "if" THEN Leave(m)
            ELSE LoopNext(P, m)

AtStmt(P, m) == m.c[1] = "S" /\ m.a.pc <= Len(P.codes[m.a.code])
\* run to the next statement (or the end)
RECURSIVE Run(_, _)
Run(P, m) == IF m.st # "run" \/ AtStmt(P, m) THEN m ELSE Run(P, Micro(P, m))

Begin(P) == Run(P, Start(P))
\* one transition of the machine: one statement is started
Transition(P, m) == Run(P, StmtStep(P, m))
Final(m) == m.st # "run"
=============================================================================
