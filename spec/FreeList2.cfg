SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Blocks = {1, 2, 3} Limit = 2 Ops = 5 
  Careful = TRUE
INVARIANTS Safe Apart Unused Conserved Limited
CHECK_DEADLOCK FALSE
