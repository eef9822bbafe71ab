SPECIFICATION MSpec
INVARIANTS FoldAgrees OneLife Returned RefusedIffIllegal Refused
CONSTANTS Ids = {1, 2}
 Sizes = {8, 16}
 Len_ = 4
CHECK_DEADLOCK FALSE
