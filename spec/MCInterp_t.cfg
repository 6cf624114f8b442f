SPECIFICATION Spec
INVARIANTS InsideOrVisible EveryFacetOwned Answer Convex AtNode NearestIsVisible OneVisible Continuous Closest EmitBeh
CHECK_DEADLOCK FALSE
CONSTANT Emit = TRUE
Side = 2
MaxPoints = 6
