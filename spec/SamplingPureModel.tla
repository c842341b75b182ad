------------------------- MODULE SamplingPureModel -------------------------
EXTENDS SamplingPure
PlansC == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
=============================================================================
