SPECIFICATION ThrSpec
CHECK_DEADLOCK FALSE
