SPECIFICATION TraceSpec
CONSTANTS
  NT = 4
  NM = 3
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
