SPECIFICATION SSpec
CONSTANTS MaxOps = 0
          MaxIters = 7
          MaxNets = 5
          Fault = "none"
INVARIANT Schedules
CHECK_DEADLOCK FALSE
