SPECIFICATION TraceSpec
CONSTANTS
  Cells <- CellsV
  Threads <- ThreadsV
  SCells <- CellsV
  SThreads <- Two
  Widest = 4
