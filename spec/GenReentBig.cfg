SPECIFICATION GenSpec
CONSTANTS
  Kinds = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20}
  Depth = 2
  Shares = {80, 250, 400, 550, 700, 930}
  Seeds = {2}
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
