SPECIFICATION TraceSpec
CONSTANTS
  Threads = {1}
  NH = 4
  NB = 4
  NK = 5
  Relax = {}
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
