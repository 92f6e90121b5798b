SPECIFICATION SSpec
CONSTANTS MaxOps = 0
          MaxIters = 7
          MaxNets = 5
          Fault = "none"
INVARIANTS Schedules EmitSchedule
CHECK_DEADLOCK FALSE
