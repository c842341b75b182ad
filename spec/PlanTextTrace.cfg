SPECIFICATION Spec
CONSTANTS
  Start <- NStart
  Clause <- NClause
  Step <- NStep
