SPECIFICATION Spec
CONSTANTS
  Start <- IStart
  Clause <- IClause
  Step <- IStep
