CONSTANTS NCombos = 3
SPECIFICATION Spec
INVARIANTS FirstMinimum Independent
CHECK_DEADLOCK FALSE
