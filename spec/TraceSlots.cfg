SPECIFICATION TraceSpec
CONSTANTS
  NSL = 5
  NL = 2
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
