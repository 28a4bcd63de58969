SPECIFICATION Spec
CONSTANTS Group = "locales"
          MaxLen = 5
INVARIANTS InBounds AllRead WellFormedOnly LocLaw
PROPERTIES Forward Stable
CHECK_DEADLOCK FALSE
