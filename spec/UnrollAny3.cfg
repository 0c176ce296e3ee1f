SPECIFICATION Spec
CONSTANTS VL = 2 PER = 3 ITERS = 2 NARGS = 3 NB = 3 Schedule = "any" Ahead = 6 Back = 0
INVARIANTS Touched AllWritten
PROPERTIES Atomic Terminates
CHECK_DEADLOCK FALSE
