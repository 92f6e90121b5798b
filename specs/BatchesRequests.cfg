SPECIFICATION RequestSpec
CONSTANTS NStreams = 1
          MaxOps = 1
          Fault = "none"
CHECK_DEADLOCK FALSE
