SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Decoding Validity RoundTrip Recode
CHECK_DEADLOCK FALSE
