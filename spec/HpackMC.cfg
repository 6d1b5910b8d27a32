SPECIFICATION Spec
CONSTANTS NameLens = {1}
          ValueLens = {0, 3}
          Sizes = {0, 40, 80}
          MaxBlocks = 2
          MaxFields = 2
          Record = FALSE
          Few = TRUE
          StartSize = 80
INVARIANTS Recovered InSync Bounded
CHECK_DEADLOCK FALSE
