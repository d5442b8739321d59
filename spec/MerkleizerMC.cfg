CONSTANTS
  MaxCount <- MCMax
  Limits <- MCLimits
  Patterns <- MCPatterns
INIT Init
NEXT Next
INVARIANTS StackOK RootOK BranchOK NoDeadEnd
CHECK_DEADLOCK FALSE
