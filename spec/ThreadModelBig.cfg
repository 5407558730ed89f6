SPECIFICATION Spec
CONSTANTS Msgs = 4
          Ids = {1, 2, 3}
INVARIANTS Rooted Correct Additive
CHECK_DEADLOCK FALSE
