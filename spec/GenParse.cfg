SPECIFICATION GSpec
CONSTANTS
  Sources <- SrcFew
  MaxOps = 8
  MaxIds = 3
  MaxDepth = 4
  MaxErr = 1
  MaxSaves = 1
  Kinds = {1, 2}
  Looks = FALSE
  TrackUndone = FALSE
VIEW GView
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
