SPECIFICATION Spec
CONSTANTS MaxOps = 9
          Odd = 2
          Record = TRUE
INVARIANTS StartsSafely OnlyAsked CustomOnly HeadParity Counts EndsOnlyWhenTold
CHECK_DEADLOCK FALSE
