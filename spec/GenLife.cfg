SPECIFICATION LSpec
CONSTANTS Objs = {1, 2, 3, 4}
CHECK_DEADLOCK FALSE
