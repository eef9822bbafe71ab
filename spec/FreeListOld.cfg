SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Blocks = {1, 2, 3} Limit = 2 Ops = 4 
  Careful = FALSE
INVARIANTS Safe Apart Unused Conserved Limited
CHECK_DEADLOCK FALSE
