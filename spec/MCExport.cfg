SPECIFICATION Spec
INVARIANTS OnePlacePerCell RoundTrip Reversed Classified WellFormed LastWins EmitBeh
CHECK_DEADLOCK FALSE
CONSTANT Emit = TRUE
MaxOps = 2
