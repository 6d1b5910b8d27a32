SPECIFICATION Spec
CONSTANTS Objs = {1, 2, 3}
          MaxOps = 6
          Record = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
