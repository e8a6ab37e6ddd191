SPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT Emitted
INVARIANTS MachineIsFunction BackAgain ShortPadding
CONSTANTS
  Side = "enc"
  EmitOn = TRUE
  Octets = 256
CHECK_DEADLOCK FALSE
