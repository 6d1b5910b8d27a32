SPECIFICATION Spec
CONSTANTS MaxFrames = 5
          MaxCalls = 7
          Record = TRUE
INVARIANTS OutputCorrect NothingLost CallsExact Bounded IdleClean IdleBlocked DiscardJustified Noticed
CHECK_DEADLOCK FALSE
