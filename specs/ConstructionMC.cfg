SPECIFICATION Spec
VIEW View
CONSTANTS MaxUnusual = 2
          MaxOps = 4
          Fault = "none"
INVARIANTS ContractHolds NoSampler Recovers
CHECK_DEADLOCK FALSE
