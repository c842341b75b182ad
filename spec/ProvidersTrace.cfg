SPECIFICATION Spec
CONSTANTS
  Start <- PStart
  Clause <- PClause
  Step <- PStep
