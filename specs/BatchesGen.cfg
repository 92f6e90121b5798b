SPECIFICATION GenSpec
CONSTANTS NStreams = 4
          MaxOps = 30
          Fault = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE
