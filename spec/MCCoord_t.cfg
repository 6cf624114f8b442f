CONSTANT Emit = TRUE
LonStep = 30
LatStep = 30
SPECIFICATION Spec
INVARIANTS OnSphere Symmetric ZeroIffEqual FullTurn SamePoint Meridian EmitBeh
CHECK_DEADLOCK FALSE
