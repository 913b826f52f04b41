SPECIFICATION TSpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  InjectiveEscape = TRUE
  StructuralLookup = TRUE
  KeepInReport = TRUE
  LiveByHighest = TRUE
  Entries <- RememberedEntries
