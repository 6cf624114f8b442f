SPECIFICATION Spec
CONSTANTS
  N = 8
  Emit = TRUE
INVARIANTS Sound Detected Unmasked Emitted
CHECK_DEADLOCK FALSE
