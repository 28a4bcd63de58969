SPECIFICATION Spec
CONSTANTS Len0 = 5
          Chunks = {1, 2, 3, 8}
          MaxOps = 5
INVARIANTS Synced Window Whole Inside
CHECK_DEADLOCK FALSE
