----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* Which schedules of calls and user actions reveal hidden state?           *)
(*                                                                         *)
(* A pure implementation and one for every way in which a library can leak  *)
(* state between calls run the same schedule in lock step; the verdict of   *)
(* the session specification (heap unchanged, result as in a pristine       *)
(* process) is evaluated for each.  The pure one must never be blamed, each *)
(* faulty one must be blamed as soon as the schedule contains its trigger,  *)
(* and schedules that unmask all of them are emitted and run against the    *)
(* real code with every entry of the catalogue of public calls.             *)
(*                                                                         *)
(* Objects are names for cells; two names for one cell are aliases.  f and  *)
(* g are two calls; f(x) is the content of x, g(x) its content plus 10.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Emit

Kinds == {"pure", "mutates", "aliasArg", "aliasCache", "staleKey", "idCache", "crosstalk", "drift", "reuse"}
Ops   == {"f1", "f2", "g1", "scr", "bec"}
None  == 0

VARIABLES sched, im, bad, env
vars == <<sched, im, bad, env>>

(* implementation: cells, the cell of each argument, of each result; what it remembers *)
Start == [cell |-> <<1, 2>>, arg |-> <<1, 2>>, res |-> <<>>, last |-> None,
          stale |-> None, byId |-> <<None, None>>, byContent |-> [c \in 1..9 |-> None], n |-> 0, g |-> FALSE]
View(s) == <<s.cell[s.arg[1]], s.cell[s.arg[2]], [k \in 1..Len(s.res) |-> s.cell[s.res[k]]]>>

New(s, c) == [s EXCEPT !.cell = Append(@, c), !.res = Append(@, Len(s.cell) + 1), !.last = Len(s.res) + 1]
Old(s, a) == [s EXCEPT !.res = Append(@, a), !.last = Len(s.res) + 1]
Count(s)  == [s EXCEPT !.n = @ + 1]

CallF(k, s, x) ==
    LET c == s.cell[s.arg[x]] IN
    Count(CASE k = "pure"       -> New(s, c)
            [] k = "mutates"    -> [New(s, c) EXCEPT !.cell[s.arg[x]] = 8]
            [] k = "aliasArg"   -> Old(s, s.arg[x])
            [] k = "aliasCache" -> IF s.byContent[c] # None THEN Old(s, s.byContent[c])
                                   ELSE [New(s, c) EXCEPT !.byContent[c] = Len(s.cell) + 1]
            [] k = "staleKey"   -> IF s.stale # None THEN New(s, s.stale) ELSE [New(s, c) EXCEPT !.stale = c]
            [] k = "idCache"    -> IF s.byId[x] # None THEN New(s, s.byId[x]) ELSE [New(s, c) EXCEPT !.byId[x] = c]
            [] k = "crosstalk"  -> New(s, IF s.g THEN 7 ELSE c)
            [] k = "drift"      -> New(s, IF s.n > 0 THEN 7 ELSE c)
            [] k = "reuse"      -> IF s.stale # None THEN [Old(s, s.stale) EXCEPT !.cell[s.stale] = c]
                                   ELSE [New(s, c) EXCEPT !.stale = Len(s.cell) + 1])
CallG(s) == [New(s, s.cell[s.arg[1]] + 10) EXCEPT !.g = TRUE, !.last = s.last]
Scribble(s) == [s EXCEPT !.cell[s.res[s.last]] = 9]
Become(s, c) == [s EXCEPT !.cell[s.arg[1]] = c]

Step(k, op, s, c) == CASE op = "f1" -> CallF(k, s, 1) [] op = "f2" -> CallF(k, s, 2) [] op = "g1" -> CallG(s)
                       [] op = "scr" -> Scribble(s) [] op = "bec" -> Become(s, c)

(* the verdict of the session specification on one step *)
Blame(op, s, r, want) ==
    LET a == View(s)  b == View(r)  m == Len(a[3]) IN
    IF op \in {"f1", "f2", "g1"}
    THEN b[1] # a[1] \/ b[2] # a[2] \/ (\E j \in 1..m : b[3][j] # a[3][j]) \/ b[3][m + 1] # want
    ELSE IF op = "scr" THEN b[1] # a[1] \/ b[2] # a[2] \/ (\E j \in 1..m : j # s.last /\ b[3][j] # a[3][j])
    ELSE b[2] # a[2] \/ b[3] # a[3]

(* env: contents the user put into the arguments; triggers met so far *)
Init == /\ sched = <<>> /\ im = [k \in Kinds |-> Start] /\ bad = [k \in Kinds |-> FALSE]
        /\ env = [a |-> <<1, 2>>, f |-> 0, g |-> FALSE, seen |-> {}, scr |-> {}, ids |-> {}, trig |-> {}]

Want(op) == CASE op = "f1" -> env.a[1] [] op = "f2" -> env.a[2] [] op = "g1" -> env.a[1] + 10 [] OTHER -> 0
Triggers(op) ==
    LET x == IF op = "f1" THEN 1 ELSE 2  c == IF op \in {"f1", "f2"} THEN env.a[x] ELSE 0 IN
    IF op \in {"f1", "f2"} THEN
         {"mutates"} \cup (IF env.f > 0 THEN {"drift"} ELSE {}) \cup (IF env.g THEN {"crosstalk"} ELSE {})
         \cup (IF env.ids \ {<<1, c>>, <<2, c>>} # {} THEN {"staleKey", "reuse"} ELSE {})
         \cup (IF \E p \in env.ids : p[1] = x /\ p[2] # c THEN {"idCache"} ELSE {})
         \cup (IF c \in env.scr THEN {"aliasCache"} ELSE {})
    ELSE IF op = "scr" THEN {"aliasArg"} ELSE {}

Do(op) ==
    /\ Len(sched) < N
    /\ IF op = "scr" THEN env.f > 0 ELSE TRUE
    /\ sched' = Append(sched, op)
    /\ LET c == IF env.a[1] = 1 THEN 3 ELSE 1
           x == IF op = "f1" THEN 1 ELSE 2
           isf == op \in {"f1", "f2"} IN
       /\ im' = [k \in Kinds |-> Step(k, op, im[k], c)]
       /\ bad' = [k \in Kinds |-> bad[k] \/ Blame(op, im[k], im'[k], Want(op))]
       /\ env' = [env EXCEPT !.a[1] = IF op = "bec" THEN c ELSE @,
                             !.f = IF isf THEN @ + 1 ELSE @,
                             !.g = @ \/ op = "g1",
                             !.seen = IF isf THEN {env.a[x]} ELSE @,
                             !.ids = IF isf THEN @ \cup {<<x, env.a[x]>>} ELSE @,
                             !.scr = IF op = "scr" THEN @ \cup env.seen ELSE @,
                             !.trig = @ \cup Triggers(op)]
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

Faulty == Kinds \ {"pure"}
Sound    == ~bad["pure"]
Detected == \A k \in env.trig : bad[k]
Complete == \A k \in Faulty : bad[k]
Emitted  == (Emit /\ Len(sched) = N /\ Complete) => PrintT("BEH|" \o ToJson([sched |-> sched]))
(* a schedule that has met every trigger unmasks every kind of fault *)
Unmasked == (env.trig = Faulty) => Complete
=============================================================================
