SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 Keys = {1, 2, 3}
 Lens <- L1248
 Chunk = 1
 Home <- MCHome
 Crowded <- MCCrowded
 Cases <- MCNested
 Ops1 <- MCNone
 Ops2 <- MCNone
 Setups <- One1
 defaultInitValue = 0
INVARIANTS Refines Structure Size
PROPERTIES Rules
