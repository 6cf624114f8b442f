CONSTANT EmitLen = 3
MaxEvents = 4
SPECIFICATION Spec
INVARIANTS Conservation Additive DispersionNormalised MigrationNormalised PsfNormalised EmitBeh
CHECK_DEADLOCK FALSE
