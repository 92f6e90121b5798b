SPECIFICATION GenSpec
CONSTANTS MaxOps = 12
          Fault = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE
