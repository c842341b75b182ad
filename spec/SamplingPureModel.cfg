SPECIFICATION Spec
CONSTANTS
  Mode = "derived"
  Plans <- PlansC
  Seeds = {1, 2}
  MaxCalls = 3
INVARIANTS Pure SplitPartAlone GlobalUntouched
