SPECIFICATION Spec
CONSTANTS
  Start <- HStart
  Clause <- HClause
  Step <- HStep
