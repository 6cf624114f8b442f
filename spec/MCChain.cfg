CONSTANT EmitLen = 2
MaxEvents = 3
SPECIFICATION Spec
INVARIANTS Sound Weighted Detected EmitBeh
CHECK_DEADLOCK FALSE
