SPECIFICATION Spec
CONSTANTS
  Start <- WStart
  Clause <- WClause
  Step <- WStep
