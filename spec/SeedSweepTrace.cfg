SPECIFICATION Spec
CONSTANTS
  Start <- CStart
  Clause <- CClause
  Step <- CStep
