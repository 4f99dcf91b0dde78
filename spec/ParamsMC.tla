------------------------------- MODULE ParamsMC -------------------------------
EXTENDS Params
Inv == ReportsGiven /\ ReportsAll /\ RoundTrip
=============================================================================
