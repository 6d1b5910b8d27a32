SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Record = TRUE
INVARIANTS OutsideRefused InsideServed ContentIsInside NoContentUnless200 Answered NoOracle
CHECK_DEADLOCK FALSE
