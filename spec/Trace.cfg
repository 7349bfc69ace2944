SPECIFICATION Spec
POSTCONDITION Report
CHECK_DEADLOCK FALSE
VIEW Viewed
