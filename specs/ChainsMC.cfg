SPECIFICATION Spec
CONSTANTS MaxOps = 2
          Fault = "none"
VIEW View
INVARIANTS ContractHolds Agree
PROPERTY Forward
CHECK_DEADLOCK FALSE
