SPECIFICATION Spec
CONSTANTS
  Cols = {"a", "b"}
  TableUnits = {"TeV", "GeV", "deg", "none"}
  Wanted = {"TeV", "rad", "one"}
  NEv = 4
  Emit = TRUE
INVARIANTS Allowed Exact RunCount RunsDef Emitted
CHECK_DEADLOCK FALSE
