SPECIFICATION Spec
INVARIANTS InvLex InvAnalysis InvLint
CHECK_DEADLOCK FALSE
