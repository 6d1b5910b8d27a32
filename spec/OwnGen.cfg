SPECIFICATION Spec
CONSTANTS Objs = {1, 2, 3, 4}
          MaxOps = 30
          Record = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
