SPECIFICATION HSpec
CONSTANTS Threads = {1, 2, 3}
 Rounds = 2
 Guarded = TRUE
INVARIANT AsIfAlone
PROPERTY AllFinish
