SPECIFICATION Spec
CONSTANTS MaxOps = 4
          Record = FALSE
INVARIANTS Wrapped AllRun RouteFirst Counted
CHECK_DEADLOCK FALSE
