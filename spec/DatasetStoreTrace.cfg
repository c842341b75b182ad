SPECIFICATION Spec
CONSTANTS
  Start <- SStart
  Clause <- SClause
  Step <- SStep
