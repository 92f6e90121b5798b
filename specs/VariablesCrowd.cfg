SPECIFICATION CrowdSpec
CONSTANTS MaxOps = 10
          MaxVars = 100
          Fault = "none"
INVARIANT Emit
CHECK_DEADLOCK FALSE
