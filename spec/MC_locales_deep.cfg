SPECIFICATION Spec
CONSTANTS Group = "locales"
          MaxLen = 6
INVARIANTS InBounds AllRead WellFormedOnly LocLaw
PROPERTIES Forward Stable
CHECK_DEADLOCK FALSE
