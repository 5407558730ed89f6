SPECIFICATION Spec
CONSTANTS MaxEntries = 3
          Versions = {1, 2}
          Depth = 0
          FileIds = {"a", "b"}
          BoxIds = {"m"}
INVARIANTS StoredAgrees InRange SearchAgrees
PROPERTIES NothingDead
CONSTRAINT Bounded
VIEW View
CHECK_DEADLOCK FALSE
