SPECIFICATION Spec
CONSTANTS
  N = 7
  Emit = TRUE
INVARIANTS Sound Detected Unmasked Emitted
CHECK_DEADLOCK FALSE
