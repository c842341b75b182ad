SPECIFICATION Spec
CONSTANTS
  Start <- VStart
  Clause <- VClause
  Step <- VStep
