SPECIFICATION Spec
CONSTANTS
  Start <- AStart
  Clause <- AClause
  Step <- AStep
