CONSTANTS
  MaxOps = 3
  Values = {1, 2, 3}
SPECIFICATION Spec
INVARIANT Constant
CHECK_DEADLOCK FALSE
