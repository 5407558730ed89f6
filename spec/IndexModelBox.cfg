SPECIFICATION Spec
CONSTANTS MaxEntries = 4
          Versions = {1, 2}
          Depth = 0
          FileIds = {}
          BoxIds = {"m"}
INVARIANTS StoredAgrees InRange SearchAgrees
PROPERTIES NothingDead
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
