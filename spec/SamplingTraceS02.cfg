SPECIFICATION Spec
CONSTANTS
  Start <- PStart
  Clause <- ZClause
  Step <- PStep
