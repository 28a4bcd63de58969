SPECIFICATION Spec
CONSTANTS MaxPieces = 4
          MaxOps = 4
          Emitting = FALSE
INVARIANTS SuffixOfText ByHand
PROPERTIES ScanShrinks
CHECK_DEADLOCK FALSE
