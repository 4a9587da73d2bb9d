SPECIFICATION GenSpec
CONSTANTS
  Mode = 64
  Cells = {1,2,3,4}
  Threads = {1,2}
  As = {0,3,4,5,6}
  Bs = {0,3,4,5,6,9}
  Cs = {7}
  Ds = {0,1,2}
  Vs = {0}
  Ps = {1,3}
  Js = {0,1,2,3,4,5,7,9,11}
  Points = 1
  Bursts = {5}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
