SPECIFICATION Spec
CONSTANTS MaxOps = 4
          MaxBurnIn = 2
          Fault = "none"
          MaxFailures = 99
VIEW View
INVARIANTS ContractHolds StepsCounted NotifiedOncePerStep StepsizePerStep
PROPERTY FrozenAfterBurnIn
CHECK_DEADLOCK FALSE
