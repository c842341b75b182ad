SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2}
  MaxReads = 2
  MaxCrashes = 2
  Variant = "ok"
INVARIANTS Mutex NeverBroken RegisterHolds HolderHasLock Recoverable
