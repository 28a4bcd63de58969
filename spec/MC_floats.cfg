SPECIFICATION Spec
CONSTANTS Group = "floats"
          MaxLen = 4
INVARIANTS InBounds AllRead WellFormedOnly Local Compose WsSlack IntLaw FloatLaw TextLaw CodecLaw WidthLaw FillLaw BoolLaw
PROPERTIES Forward Stable
CHECK_DEADLOCK FALSE
