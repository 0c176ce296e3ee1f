SPECIFICATION Spec
CONSTANTS VL = 2 PER = 2 ITERS = 2 NARGS = 4 NB = 4 Schedule = "code" Ahead = 2 Back = 0
INVARIANTS Touched AllWritten
PROPERTIES Atomic Terminates
CHECK_DEADLOCK FALSE
