SPECIFICATION Spec
CONSTANTS MaxLen = 3
          MaxRuns = 1
INVARIANTS RoundTrip Ascending HighestRight EachOnce
CHECK_DEADLOCK FALSE
