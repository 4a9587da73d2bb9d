SPECIFICATION GenSpec
CONSTANTS
  Mode = 0
  Cells = {1,2,3,4}
  Threads = {1,2}
  As = {0,1,2,3,4,5,6}
  Bs = {0,1,2,3,4,5,6}
  Cs = {0,5}
  Ds = {0}
  Vs = {1}
  Ps = {1,2,3,4,5}
  Js = {0,2}
  Points = 1
  Bursts = {2}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
