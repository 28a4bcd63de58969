SPECIFICATION Spec
CONSTANTS MaxPieces = 2
          MaxOps = 2
          Keep = TRUE
          Chunk = 2
INVARIANTS Serial Conserved
PROPERTIES Answered
CHECK_DEADLOCK FALSE
