SPECIFICATION Spec
CONSTANTS
  N = 3
  C = 2
INVARIANTS Partition Progress
