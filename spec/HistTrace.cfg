SPECIFICATION TSpec
CONSTANTS
  Key <- TKey
  Thread <- TThread
  TRACK <- TTrack
  FLOORS <- TFloors
  DURABLE <- TDurable
  SIZES <- TSizes
  STALE <- TStale
  Ops = {}
  Vals = {}
  MaxVer = 0
INVARIANT LTypeOK
CHECK_DEADLOCK FALSE
