SPECIFICATION MSpec
CONSTANTS Objs = {1}
          Lens = {0, 1, 2, 3, 4, 5, 6}
          Small = FALSE
          Deep = 1
VIEW MView
INVARIANTS TypeOK Supported AlwaysOut Agree Back Domain
PROPERTIES Local Fixed Keeps Function
CHECK_DEADLOCK FALSE
