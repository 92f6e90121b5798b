SPECIFICATION GenSpec
CONSTANTS MaxOps = 14
          Fault = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE
