SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Emit = FALSE
VIEW View
INVARIANTS NewestSurvivesGc RebuildDescribesDisk
