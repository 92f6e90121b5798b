SPECIFICATION Spec
CONSTANTS NSlots = 2
          MaxOps = 6
          Fault = "none"
          MaxIdle = 99
VIEW View
INVARIANT ContractHolds
CHECK_DEADLOCK FALSE
