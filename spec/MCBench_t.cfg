CONSTANT Emit = TRUE
MaxEvents = 5
SPECIFICATION Spec
INVARIANTS Monotone InverseOfCdf InRange RightBin EmitBeh
CHECK_DEADLOCK FALSE
