SPECIFICATION Spec
CONSTANTS MaxConds = 3
          Conds <- QConds
          Keys <- QKeys
INVARIANTS Laws
CHECK_DEADLOCK FALSE
