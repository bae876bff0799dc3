SPECIFICATION MSpec
CONSTANTS Objs = {1}
          Lens = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16}
          Small = FALSE
          Deep = 3
VIEW MView
INVARIANTS TypeOK Supported AlwaysOut Agree Back Domain
PROPERTIES Local Fixed Keeps Function
CHECK_DEADLOCK FALSE
