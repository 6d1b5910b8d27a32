SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Bounded Newest Maximal
CHECK_DEADLOCK FALSE
