SPECIFICATION GenSpec
CONSTANTS MaxOps = 12
          MaxIters = 7
          MaxNets = 5
          Fault = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE
