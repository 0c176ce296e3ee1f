SPECIFICATION Spec
CONSTANTS VL = 2 PER = 3 ITERS = 2 NARGS = 2 NB = 3 Schedule = "code" Ahead = 2 Back = 0
INVARIANTS Touched AllWritten
PROPERTIES Atomic Terminates
CHECK_DEADLOCK FALSE
