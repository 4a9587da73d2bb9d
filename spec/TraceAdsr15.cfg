SPECIFICATION TraceSpec
CONSTANT Aspects = {"range"}
