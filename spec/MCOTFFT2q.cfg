SPECIFICATION MSpec
CONSTANTS Objs = {1, 2}
          Lens = {2}
          Small = TRUE
          Deep = 0
VIEW MView
INVARIANTS TypeOK Supported AlwaysOut Agree Back Domain
PROPERTIES Local Fixed Keeps Function
CHECK_DEADLOCK FALSE
