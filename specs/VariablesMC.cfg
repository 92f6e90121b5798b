SPECIFICATION Spec
CONSTANTS MaxOps = 6
          MaxVars = 3
          Fault = "none"
VIEW View
INVARIANT ContractHolds
PROPERTY Stays
CHECK_DEADLOCK FALSE
