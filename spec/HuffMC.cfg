SPECIFICATION Spec
INVARIANTS RoundTrip LengthOK PadTooLong NoEOS
CHECK_DEADLOCK FALSE
