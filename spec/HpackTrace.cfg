SPECIFICATION Spec
INVARIANT TableBounded
CHECK_DEADLOCK FALSE
