SPECIFICATION Spec
INVARIANTS AlwaysPrefixCode FlattenRight Emitted
CONSTANTS
  MaxSymbols = 5
  MaxLength = 6
  EmitOn = TRUE
CHECK_DEADLOCK FALSE
