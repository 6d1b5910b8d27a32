SPECIFICATION Spec
CONSTANTS Nums = {1, 2, 3}
          MaxDesc = 4
          MaxOps = 6
          Buf0 = 1
          Record = FALSE
INVARIANTS PollExact EPollTrue EPollSome InFull SameView
CHECK_DEADLOCK FALSE
