SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Fault = "none"
VIEW View
INVARIANTS ContractHolds 
PROPERTIES Extends Improves
CHECK_DEADLOCK FALSE
