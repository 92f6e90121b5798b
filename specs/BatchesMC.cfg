SPECIFICATION Spec
CONSTANTS NStreams = 2
          MaxOps = 5
          Fault = "none"
VIEW View
INVARIANT ContractHolds
CHECK_DEADLOCK FALSE
