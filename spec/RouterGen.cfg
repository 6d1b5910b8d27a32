SPECIFICATION Spec
CONSTANTS MaxOps = 16
          Record = TRUE
INVARIANTS Wrapped AllRun RouteFirst Counted
CHECK_DEADLOCK FALSE
