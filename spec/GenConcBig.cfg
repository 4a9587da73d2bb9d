SPECIFICATION GenSpec
CONSTANTS
  Mode = 0
  Cells = {1,2,3,4}
  Threads = {1,2}
  As = {0,2,4,5,6}
  Bs = {0,2,3,5,9}
  Cs = {7}
  Ds = {0,1,2}
  Vs = {0}
  Ps = {0,1,2,3,4}
  Js = {0,3,6}
  Points = 2
  Bursts = {2,3}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
