SPECIFICATION Spec
CONSTANTS
  Start <- CStart0
  Clause <- NClause
  Step <- NStep
