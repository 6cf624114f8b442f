SPECIFICATION Spec
INVARIANTS Field Order NonFinite Elementary Sequences0 AgreesWithTLC
CHECK_DEADLOCK FALSE
