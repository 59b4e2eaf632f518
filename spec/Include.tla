-------------------------------- MODULE Include --------------------------------
(* Resolution of include locations (texts).  A base is <<>> (no location is      *)
(* known: paths are used as they are) or <<file>>.                               *)
EXTENDS Text

IsLower(c) == c >= 97 /\ c <= 122
RECURSIVE LowersEnd(_, _)
LowersEnd(t, i) == IF i <= Len(t) /\ IsLower(t[i]) THEN LowersEnd(t, i + 1) ELSE i
\* an absolute URL: scheme ":"
IsURL(t) == LET i == LowersEnd(t, 1) IN i > 1 /\ i <= Len(t) /\ t[i] = 58
\* the directory part (up to and including the last slash)
DirOf(t) == LET k == FindLast(t, <<47>>, Len(t)) IN SubSeq(t, 1, k)
\* a path in normal form: no empty or "." components
RECURSIVE Norm(_)
Parts(t) == SelectSeq(SplitAt(t, <<47>>), LAMBDA p : p # <<>> /\ p # <<46>>)
Norm(t) == LET ps == Parts(t)
               abs == t # <<>> /\ t[1] = 47
               lead == IF abs /\ Len(t) >= 2 /\ t[2] = 47 /\ ~(Len(t) >= 3 /\ t[3] = 47) THEN <<47, 47>> ELSE IF abs THEN <<47>> ELSE <<>>
           IN IF ps = <<>> THEN (IF abs THEN lead ELSE <<46>>) ELSE lead \o JoinWith(ps, <<47>>)
\* the location of reference "url" in file "file"
Resolve(file, url) ==
    IF IsURL(url) THEN url
    ELSE IF url # <<>> /\ url[1] = 47 THEN Norm(url)
    ELSE IF IsURL(file) THEN DirOf(file) \o url
    ELSE LET d == DirOf(file)
             \* the directory keeps its spelling without the trailing slashes
             RECURSIVE dropS(_)
             dropS(t) == IF Len(t) > 1 /\ t[Len(t)] = 47 THEN dropS(SubSeq(t, 1, Len(t) - 1)) ELSE t
         IN IF d = <<>> THEN Norm(url)
            ELSE IF \A i \in 1..Len(d) : d[i] = 47 THEN d \o Norm(url)
            ELSE dropS(d) \o <<47>> \o Norm(url)
Rebase(base, url) == IF base = <<>> THEN url ELSE Resolve(base[1], url)
=============================================================================
