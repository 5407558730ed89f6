SPECIFICATION SimSpec
CONSTANTS MaxEntries = 99
          Versions = {1, 2, 3}
          Depth = 20
          FileIds = {"a"}
          BoxIds = {"m"}
CHECK_DEADLOCK FALSE
