CONSTANTS MaxEvents = 2
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS BinLaw NanIsOverflow Conservation TypeSums OrderFree MergeLaw TimesLaw KnotLaw JoinSplit EmitBeh
CHECK_DEADLOCK FALSE
