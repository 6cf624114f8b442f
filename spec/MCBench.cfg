CONSTANT Emit = TRUE
MaxEvents = 4
SPECIFICATION Spec
INVARIANTS Monotone InverseOfCdf InRange RightBin EmitBeh
CHECK_DEADLOCK FALSE
