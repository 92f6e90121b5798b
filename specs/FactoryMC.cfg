SPECIFICATION Spec
CONSTANTS MaxFalsy = 1
          MaxStrange = 1
INVARIANTS GivenWins Complete Refused
CHECK_DEADLOCK FALSE
