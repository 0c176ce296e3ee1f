SPECIFICATION TraceSpec
ALIAS Alias
CONSTANTS
  OpOk <- TOpOk
  RampOk <- TRampOk
  CurveOk <- TCurveOk
  RampCell <- TRampCell
  RampExact <- TRampExact
  RampOpOk <- TRampOpOk
  ReduceOk <- TReduceOk
  PeakOk <- TPeakOk
  EnergyOk <- TEnergyOk
  MagOk <- TMagOk
  IsZeroCell <- TIsZero
  ApproxOk <- TApproxOk
