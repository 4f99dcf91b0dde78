------------------------------ MODULE SamplerMC ------------------------------
EXTENDS Sampler
ModelProps == {<<0, 1>>, <<1, 8>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<3, 2>>, <<2, 1>>}
=============================================================================
