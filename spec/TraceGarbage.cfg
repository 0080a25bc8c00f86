SPECIFICATION TraceSpec
CONSTANTS
  K = 4
  C = 8
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
