SPECIFICATION Spec
CONSTANTS Nums = {1, 2, 3, 4}
          MaxDesc = 16
          MaxOps = 40
          Buf0 = 64
          Record = TRUE
INVARIANTS PollExact EPollTrue EPollSome InFull SameView
CHECK_DEADLOCK FALSE
