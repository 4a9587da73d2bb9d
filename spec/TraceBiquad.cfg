SPECIFICATION TraceSpec
CONSTANT Filters = {0, 1}
