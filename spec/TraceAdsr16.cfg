SPECIFICATION TraceSpec
CONSTANT Aspects = {"shape"}
