SPECIFICATION Spec
VIEW VmView
INVARIANTS InvVm
PROPERTIES PropFrame PropBudget
CHECK_DEADLOCK FALSE
