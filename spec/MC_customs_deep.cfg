SPECIFICATION Spec
CONSTANTS Group = "customs"
          MaxLen = 8
INVARIANTS InBounds AllRead WellFormedOnly Local Compose WsSlack IntLaw FloatLaw TextLaw CodecLaw WidthLaw FillLaw BoolLaw NestLaw SeqLaw CapLaw PreLaw ArrowLaw
PROPERTIES Forward Stable
CHECK_DEADLOCK FALSE
