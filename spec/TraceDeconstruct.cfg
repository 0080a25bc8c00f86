SPECIFICATION TraceSpec
CONSTANTS
  NI = 3
  NP = 5
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
