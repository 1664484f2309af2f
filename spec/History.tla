------------------------------ MODULE History ------------------------------
(* The recorded history to be judged, named by the environment.            *)
EXTENDS Json, IOUtils
TheLog == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================
