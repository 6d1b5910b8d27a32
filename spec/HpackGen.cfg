SPECIFICATION Spec
CONSTANTS NameLens = {1, 3, 20}
          ValueLens = {0, 1, 20, 127}
          Sizes = {0, 60, 128, 4096, 65536}
          MaxBlocks = 4
          MaxFields = 3
          Record = TRUE
          Few = FALSE
          StartSize = 65536
INVARIANTS Recovered InSync Bounded
CHECK_DEADLOCK FALSE
