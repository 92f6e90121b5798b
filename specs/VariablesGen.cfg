SPECIFICATION GenSpec
CONSTANTS MaxOps = 16
          MaxVars = 4
          Fault = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE
