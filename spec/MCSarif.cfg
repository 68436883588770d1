SPECIFICATION Spec
INVARIANTS InvArtifacts InvResults
PROPERTIES PropGrowing
CHECK_DEADLOCK FALSE
