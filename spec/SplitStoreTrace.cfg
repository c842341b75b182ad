SPECIFICATION Spec
CONSTANTS
  Start <- QStart
  Clause <- QClause
  Step <- QStep
