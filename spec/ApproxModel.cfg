SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2}
          MaxPattern = 4
          MaxWord = 6
          MaxErrors = 3
INVARIANTS Correct Exact Anchored
CHECK_DEADLOCK FALSE
