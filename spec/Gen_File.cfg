SPECIFICATION Spec
CONSTANTS MaxPieces = 14
          MaxOps = 9
          Emitting = TRUE
CHECK_DEADLOCK FALSE
