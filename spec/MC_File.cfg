SPECIFICATION Spec
CONSTANTS MaxPieces = 3
          MaxOps = 3
          Emitting = FALSE
INVARIANTS SuffixOfText ByHand
PROPERTIES ScanShrinks
CHECK_DEADLOCK FALSE
