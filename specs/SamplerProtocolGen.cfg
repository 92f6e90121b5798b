SPECIFICATION GenSpec
CONSTANTS MaxOps = 8
          MaxBurnIn = 4
          Fault = "none"
          MaxFailures = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
