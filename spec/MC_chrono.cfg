SPECIFICATION Spec
CONSTANTS Group = "chrono"
          MaxLen = 5
INVARIANTS InBounds AllRead WellFormedOnly Local ChrRanges ChrLaw
PROPERTIES Forward Stable
CHECK_DEADLOCK FALSE
