SPECIFICATION Spec
CONSTANTS NClients = 3
          MaxConn = 2
          MaxEnv = 5
          Record = FALSE
INVARIANTS Capacity FdDistinct ClosedOnce NoTrace AllClosed IdleClosed Interest NothingLeft Isolated Answered
PROPERTIES Progress Taken Stopped
CHECK_DEADLOCK FALSE
