------------------------------ MODULE MetricNNMC ------------------------------
EXTENDS MetricNN
CONSTANT Coords, Factors
MPoints == {<<a, b>> : a, b \in Coords}
(* M = transposed L times L *)
Square(L) == <<<<L[1] * L[1] + L[3] * L[3], L[1] * L[2] + L[3] * L[4]>>, <<L[1] * L[2] + L[3] * L[4], L[2] * L[2] + L[4] * L[4]>>>>
MTensors == {Square(L) : L \in [1..4 -> Factors]}
=============================================================================
