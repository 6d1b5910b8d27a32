SPECIFICATION Spec
CONSTANTS Top = 5000
INVARIANTS RoundTrip Truncated Shortest
CHECK_DEADLOCK FALSE
