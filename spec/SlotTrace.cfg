SPECIFICATION TSpec
CONSTANTS
  Keys <- TKeys
  Sizes <- TSizes
  Vals = {}
INVARIANT OneSlot OldSettled
CHECK_DEADLOCK FALSE
