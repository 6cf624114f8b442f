CONSTANTS MaxEvents = 3
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS CutInRange Monotone ClipLaw TimesLaw Efficiency Partition OrderFree SmoothLaw EmitBeh
CHECK_DEADLOCK FALSE
