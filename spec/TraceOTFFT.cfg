SPECIFICATION TSpec
CONSTANTS Objs = {1, 2, 3, 4, 5, 6}
VIEW TView
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
