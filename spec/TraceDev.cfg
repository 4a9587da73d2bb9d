SPECIFICATION TraceSpec
CONSTANT Devs = {0, 1, 2}
INVARIANT Contained
