SPECIFICATION TraceSpec
CONSTANT Aspects = {"release"}
