SPECIFICATION GenSpec
CONSTANTS
  Devs = {0}
  N = 4
  Vals = {0, 1, 2}
  Emitted = {"wa", "adv", "rd", "poke", "wipe"}
VIEW View1
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
