SPECIFICATION Spec
CONSTANTS Len0 = 7
          Chunks = {1, 2, 3, 8}
          MaxOps = 8
INVARIANTS Synced Window Whole Inside
CHECK_DEADLOCK FALSE
