SPECIFICATION ESpec
CONSTANTS Objs = {1, 2, 3, 4, 5, 6}
VIEW EView
POSTCONDITION Done
CHECK_DEADLOCK FALSE
