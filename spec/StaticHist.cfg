SPECIFICATION Spec
CONSTANTS MaxOps = 3
          Record = FALSE
VIEW View
INVARIANTS Current NeverOutside Served OneNode NoOrphans
CHECK_DEADLOCK FALSE
