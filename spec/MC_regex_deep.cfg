SPECIFICATION Spec
CONSTANTS Group = "regex"
          MaxLen = 6
INVARIANTS InBounds AllRead WellFormedOnly RxLaw
PROPERTIES Forward Stable
CHECK_DEADLOCK FALSE
