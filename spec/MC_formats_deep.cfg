SPECIFICATION Spec
CONSTANTS Group = "formats"
          MaxLen = 8
INVARIANTS InBounds AllRead WellFormedOnly Local Compose WsSlack IntLaw FloatLaw TextLaw CodecLaw WidthLaw FillLaw BoolLaw
PROPERTIES Forward Stable
CHECK_DEADLOCK FALSE
