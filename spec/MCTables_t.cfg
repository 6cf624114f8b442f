SPECIFICATION Spec
CONSTANTS
  Cols = {"a", "b", "c"}
  TableUnits = {"TeV", "deg", "none"}
  Wanted = {"TeV", "rad", "one"}
  NEv = 5
  Emit = FALSE
INVARIANTS Allowed Exact RunCount RunsDef Emitted
CHECK_DEADLOCK FALSE
