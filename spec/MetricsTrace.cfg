SPECIFICATION Spec
CONSTANTS
  Start <- MStart
  Clause <- MClause
  Step <- MStep
