SPECIFICATION Spec
CONSTANTS MaxM = 400
          MaxN = 100000
INVARIANTS Rounding Naturals
CHECK_DEADLOCK FALSE
