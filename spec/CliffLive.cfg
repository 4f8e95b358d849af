SPECIFICATION Spec
CONSTANTS
 Threads = {1, 2}
 Keys = {1, 2, 3}
 Lens <- L24
 Chunk = 2
 Home <- MCHome
 Crowded <- MCCrowded
 Cases <- MCCases
 Ops1 <- Grow3
 Ops2 <- Fewest
 Setups <- One2
 defaultInitValue = 0
PROPERTIES Return
