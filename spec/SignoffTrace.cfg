SPECIFICATION TraceSpec
INVARIANT Report
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
