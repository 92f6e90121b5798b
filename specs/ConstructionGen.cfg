SPECIFICATION GenSpec
VIEW GView
CONSTANTS MaxUnusual = 2
          MaxOps = 4
          Fault = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE
