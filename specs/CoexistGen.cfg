SPECIFICATION GenSpec
CONSTANTS NSlots = 3
          MaxOps = 22
          Fault = "none"
          MaxIdle = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
