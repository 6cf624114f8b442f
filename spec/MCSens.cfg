CONSTANTS MaxOn = 14
          MaxOff = 9
          Emit = TRUE
SPECIFICATION Spec
INVARIANTS NonNegative ZeroBelow GrowsWithOn FallsWithOff LikelihoodRatio MonotoneCriteria SolutionIsUnique EmitBeh
CHECK_DEADLOCK FALSE
