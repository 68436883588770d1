SPECIFICATION Spec
VIEW DapView
INVARIANTS InvProtocol InvMachine InvPaging
PROPERTIES PropStop PropLooking PropBreaking PropStepping
CHECK_DEADLOCK FALSE
