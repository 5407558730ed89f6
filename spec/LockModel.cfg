SPECIFICATION Spec
CONSTANTS N = 3
          MaxKills = 1
INVARIANTS MutualExclusion EveryStepAllowed NothingLeft
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
