SPECIFICATION Spec
CONSTANTS MaxOps = 8
          Record = TRUE
INVARIANTS OneNode
CHECK_DEADLOCK FALSE
