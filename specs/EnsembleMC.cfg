SPECIFICATION Spec
CONSTANTS MaxOps = 3
          MaxIters = 7
          MaxNets = 5
          Fault = "none"
INVARIANT ContractHolds
CHECK_DEADLOCK FALSE
