SPECIFICATION Spec
VIEW View
INVARIANTS InvResolved InvKept InvVersion InvSame
CHECK_DEADLOCK FALSE
