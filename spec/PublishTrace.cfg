SPECIFICATION TraceSpec
CONSTANT Channels <- RealChannels
INVARIANT Report
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
