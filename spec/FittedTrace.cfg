SPECIFICATION Spec
CONSTANTS
  Start <- FStart
  Clause <- FClause
  Step <- FStep
