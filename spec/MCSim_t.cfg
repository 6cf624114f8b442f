CONSTANT Emit = TRUE
Indices = {"-1", "-2", "-2.7"}
FovWith = 3
SPECIFICATION Spec
INVARIANTS TotalWhenCovering NonNegative ZeroOutside FovTotal Additive SpectrumNormalised EmitBeh
CHECK_DEADLOCK FALSE
