SPECIFICATION Spec
CONSTANTS VL = 2 PER = 2 ITERS = 2 NARGS = 2 NB = 3 Schedule = "any" Ahead = 4 Back = 0
INVARIANTS Touched AllWritten
PROPERTIES Atomic Terminates
CHECK_DEADLOCK FALSE
