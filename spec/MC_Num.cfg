SPECIFICATION Spec
CONSTANTS MaxM = 60
          MaxN = 100000
INVARIANTS Rounding Naturals
CHECK_DEADLOCK FALSE
