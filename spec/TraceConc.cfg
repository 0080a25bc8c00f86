SPECIFICATION TraceSpec
CONSTANTS
  Threads = {1, 2, 3}
  NH = 4
  NB = 6
  NK = 4
  Relax = {}
CONSTRAINT Reached
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
