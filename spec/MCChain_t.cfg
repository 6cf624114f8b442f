CONSTANT EmitLen = 3
MaxEvents = 4
SPECIFICATION Spec
INVARIANTS Sound Weighted Detected EmitBeh
CHECK_DEADLOCK FALSE
