SPECIFICATION Spec
CONSTANTS
  Sources <- SrcFew
  MaxOps = 9
  MaxIds = 3
  MaxDepth = 4
  MaxErr = 1
  MaxSaves = 1
  Kinds = {1, 2}
  Looks = FALSE
VIEW View
CHECK_DEADLOCK FALSE
