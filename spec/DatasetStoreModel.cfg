SPECIFICATION Spec
CONSTANTS
  Ids = {a, b, c}
  MaxReads = 5
  Broken = ""
INVARIANTS Isolation NoNeedlessRead
