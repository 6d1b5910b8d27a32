SPECIFICATION Spec
CONSTANTS NClients = 5
          MaxConn = 2
          MaxEnv = 14
          Record = TRUE
INVARIANTS Capacity FdDistinct ClosedOnce NoTrace AllClosed IdleClosed Interest NothingLeft Isolated Answered
CHECK_DEADLOCK FALSE
