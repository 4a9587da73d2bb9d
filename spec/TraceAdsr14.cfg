SPECIFICATION TraceSpec
CONSTANT Aspects = {"gate"}
