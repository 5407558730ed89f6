SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxRuns = 2
INVARIANTS RoundTrip Ascending HighestRight EachOnce
CHECK_DEADLOCK FALSE
