SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  MaskParent = FALSE
  FirstOnly = FALSE
  KeepFailed = FALSE
