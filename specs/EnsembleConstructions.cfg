SPECIFICATION ConstructSpec
VIEW CView
CONSTANTS MaxOps = 3
          MaxIters = 7
          MaxNets = 5
          Fault = "none"
INVARIANT EmitConstruction
CHECK_DEADLOCK FALSE
