SPECIFICATION Spec
POSTCONDITION ReportDone
CHECK_DEADLOCK FALSE
