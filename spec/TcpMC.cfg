SPECIFICATION Spec
CONSTANTS MaxOps = 6
          Cap = 3
          Record = FALSE
INVARIANT Inv
PROPERTY TrueWant
CHECK_DEADLOCK FALSE
