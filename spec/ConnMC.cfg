SPECIFICATION Spec
CONSTANTS MaxFrames = 3
          MaxCalls = 3
          Record = FALSE
INVARIANTS OutputCorrect NothingLost CallsExact Bounded IdleClean IdleBlocked DiscardJustified Noticed
PROPERTIES NoReadWhileBlocked
CHECK_DEADLOCK FALSE
