SPECIFICATION Spec
CONSTANTS MaxSteps = 4
          Fault = "none"
INVARIANT NoRepetition
CHECK_DEADLOCK FALSE
