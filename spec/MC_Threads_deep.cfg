SPECIFICATION Spec
CONSTANTS MaxPieces = 3
          MaxOps = 2
          Keep = TRUE
          Chunk = 2
INVARIANTS Serial Conserved
CHECK_DEADLOCK FALSE
