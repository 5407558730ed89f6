SPECIFICATION Spec
CONSTANTS Pages = 4
          MaxRuns = 4
INVARIANTS AlwaysWhole Honest Recovers
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
