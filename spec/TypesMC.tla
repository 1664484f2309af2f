------------------------------ MODULE TypesMC ------------------------------
EXTENDS Types
\* Writes every type reached with what its traits must be.
Shown == PrintT(ToJson(<<"T", Row>>))
=============================================================================
