SPECIFICATION ConSpec
CONSTANTS NSlots = 1
          MaxOps = 4
          Fault = "none"
          MaxIdle = 4
INVARIANT EmitCon
CHECK_DEADLOCK FALSE
