SPECIFICATION Spec
CONSTANTS
  Order = "withdraw"
  MaxSaves = 4
INVARIANTS Whole FailOnlyIfMissing ServedIsSaved
