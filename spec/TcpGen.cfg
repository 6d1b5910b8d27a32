SPECIFICATION Spec
CONSTANTS MaxOps = 25
          Cap = 6
          Record = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
