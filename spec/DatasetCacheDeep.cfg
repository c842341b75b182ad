SPECIFICATION Spec
CONSTANTS
  Procs = {p1, p2, p3}
  MaxReads = 4
  MaxCrashes = 3
  Variant = "ok"
INVARIANTS Mutex NeverBroken RegisterHolds HolderHasLock Recoverable
