SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2, 3}
          MaxPattern = 5
          MaxWord = 7
          MaxErrors = 4
INVARIANTS Correct Exact Anchored
CHECK_DEADLOCK FALSE
