SPECIFICATION TraceSpec
INVARIANTS BothBounded
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
