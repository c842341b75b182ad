SPECIFICATION Spec
CONSTANTS
  Start <- LStart
  Clause <- LClause
  Step <- LStep
