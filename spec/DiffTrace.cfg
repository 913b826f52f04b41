SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  Popular = 0
  PopularDiv = 1
  Broken = ""
