SPECIFICATION Spec
CONSTANTS MaxConds = 3
          Conds <- QCondsMore
          Keys <- QKeysMore
INVARIANTS Laws
CHECK_DEADLOCK FALSE
