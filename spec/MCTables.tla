------------------------------ MODULE MCTables ------------------------------
(***************************************************************************)
(* Every table with up to three columns against every requirement: the      *)
(* procedure (set difference, then one column after the other) stays within *)
(* what CheckAllowed permits, in whatever order the requirements are        *)
(* visited, and accepts exactly the satisfying tables.                      *)
(* Every small event list: counting runs by grouping sorted rows equals the *)
(* number of distinct (observation, pointing) combinations.                 *)
(***************************************************************************)
EXTENDS Tables, Json
CONSTANTS Cols, TableUnits, Wanted, NEv, Emit

VARIABLES phase, cols, req, units, todo, out, rows, seen, runs
vars == <<phase, cols, req, units, todo, out, rows, seen, runs>>
Units0 == UNION {[S -> Wanted] : S \in SUBSET Cols}
Tables0 == UNION {[S -> TableUnits] : S \in SUBSET Cols}
None == [k |-> "none"]

Init == \/ /\ phase = "check" /\ cols \in Tables0 /\ req \in SUBSET Cols /\ units \in Units0
           /\ todo = DOMAIN units /\ out = None /\ rows = <<>> /\ seen = {} /\ runs = 0
        \/ /\ phase = "runs" /\ rows \in [1..NEv -> (1..2) \X (1..2) \X (1..2)] /\ seen = {} /\ runs = 0
           /\ cols = <<>> /\ req = {} /\ units = <<>> /\ todo = 1..NEv /\ out = None

Columns == /\ phase = "check" /\ out = None
           /\ phase' = "units"
           /\ out' = IF req \ DOMAIN cols # {} THEN [k |-> "raise", type |-> "MissingColumns", names |-> req \ DOMAIN cols] ELSE None
           /\ UNCHANGED <<cols, req, units, todo, rows, seen, runs>>
Unit == /\ phase = "units" /\ out = None
        /\ IF todo = {} THEN out' = [k |-> "ok"] /\ todo' = {}
           ELSE \E c \in todo :
                /\ todo' = todo \ {c}
                /\ out' = IF c \notin DOMAIN cols THEN [k |-> "raise", type |-> "MissingColumns", names |-> {c}]
                          ELSE IF DimOf(cols[c]) # DimOf(units[c]) THEN [k |-> "raise", type |-> "WrongColumnUnit", names |-> {c}]
                          ELSE None
        /\ UNCHANGED <<phase, cols, req, units, rows, seen, runs>>
Count == /\ phase = "runs"
         /\ \E k \in todo : /\ todo' = todo \ {k}
                            /\ seen' = seen \cup {rows[k]}
                            /\ runs' = IF rows[k] \in seen THEN runs ELSE runs + 1
         /\ UNCHANGED <<phase, cols, req, units, out, rows>>
Next == Columns \/ Unit \/ Count
Spec == Init /\ [][Next]_vars

Allowed  == (out # None) => CheckAllowed(cols, req, units, out)
Exact    == (out # None) => ((out.k = "ok") = Satisfied(cols, req, units))
RunCount == (phase = "runs" /\ todo = {}) => runs = Cardinality({rows[k] : k \in 1..NEv})
File     == [events |-> [OBS_ID |-> [v |-> [k \in 1..NEv |-> rows[k][1]]], PNT_AZ |-> [v |-> [k \in 1..NEv |-> rows[k][2]]],
                         PNT_ALT |-> [v |-> [k \in 1..NEv |-> rows[k][3]]]]]
RunsDef  == (phase = "runs" /\ todo = {}) => runs = Cardinality(Runs(File))
Emitted  == (Emit /\ phase = "check") => PrintT("BEH|" \o ToJson([cols |-> cols, req |-> req, units |-> units]))
=============================================================================
