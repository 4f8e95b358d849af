SPECIFICATION LSpec
CONSTANTS
  Key = {1}
  Thread = {1, 2}
  TRACK = TRUE
  FLOORS = TRUE
  DURABLE = TRUE
  SIZES = TRUE
  STALE = FALSE
  Ops = {"cgetS", "cinsS", "cera", "chas", "cincI"}
  Vals = {1, 2}
  MaxVer = 3
CONSTRAINT Bound
INVARIANT LTypeOK
PROPERTIES FloorMonotone NoInvention
CHECK_DEADLOCK FALSE
