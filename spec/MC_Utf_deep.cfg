SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Decoding Validity RoundTrip Recode
CHECK_DEADLOCK FALSE
