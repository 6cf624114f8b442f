CONSTANT Emit = TRUE
Indices = {"-1", "-2.7"}
FovWith = 2
SPECIFICATION Spec
INVARIANTS TotalWhenCovering NonNegative ZeroOutside FovTotal Additive SpectrumNormalised EmitBeh
CHECK_DEADLOCK FALSE
