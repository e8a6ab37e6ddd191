SPECIFICATION Spec
VIEW ViewNoDepth
ACTION_CONSTRAINT Emitted
INVARIANTS KeyIsValid
PROPERTIES ChunkingIrrelevant Counted RefusedAgain
CONSTANTS
  Pieces <- OctetPieces
  MaxHeld = 3
  MaxCalls = 6
  EmitOn = TRUE
  Decoders = 1
CHECK_DEADLOCK FALSE
