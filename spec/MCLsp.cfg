SPECIFICATION Spec
INVARIANTS InvAnswered InvFresh InvNavigation InvRename InvActions InvLabelRemoved InvSemantic InvCompletion InvAnnounced
PROPERTIES PropIsolated PropReadOnly PropEnds
CHECK_DEADLOCK FALSE
