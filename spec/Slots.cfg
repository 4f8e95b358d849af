SPECIFICATION SSpec
CONSTANTS
  Keys = {1, 2}
  Sizes <- MCSizes
  Vals = {2, 3}
INVARIANT OneSlot OneHome CurOK OldSettled
PROPERTIES KeyForever FrozenForever InternalKeeps ClientStores
CHECK_DEADLOCK FALSE
