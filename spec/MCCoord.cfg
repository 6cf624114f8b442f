CONSTANT Emit = TRUE
LonStep = 45
LatStep = 45
SPECIFICATION Spec
INVARIANTS OnSphere Symmetric ZeroIffEqual FullTurn SamePoint Meridian EmitBeh
CHECK_DEADLOCK FALSE
