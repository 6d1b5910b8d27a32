SPECIFICATION Spec
CONSTANTS MaxOps = 1
          Odd = 2
          Record = FALSE
INVARIANTS StartsSafely OnlyAsked CustomOnly HeadParity Counts EndsOnlyWhenTold
PROPERTY Ends
CHECK_DEADLOCK FALSE
