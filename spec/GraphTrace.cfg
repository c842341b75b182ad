SPECIFICATION Spec
CONSTANTS
  Start <- GStart
  Clause <- GClause
  Step <- GStep
