SPECIFICATION Spec
CONSTANTS
  Start <- RStart
  Clause <- RClause
  Step <- RStep
