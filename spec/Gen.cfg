SPECIFICATION GSpec
INVARIANT InRange
CHECK_DEADLOCK FALSE
CONSTANTS
  OpOk <- IOpOk
  RampOk <- IRampOk
  CurveOk <- ICurveOk
  RampCell <- IRampCell
  RampExact <- IRampExact
  RampOpOk <- IRampOpOk
  ReduceOk <- IReduceOk
  PeakOk <- IPeakOk
  EnergyOk <- IEnergyOk
  MagOk <- IMagOk
  IsZeroCell <- IZero
  ApproxOk <- IApprox
