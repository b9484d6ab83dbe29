CONSTANTS
  Depth = 2
  HistOn = FALSE
  OpSet = {"un","index","transpose","squeeze","red","cum","add_dim","t","norep","tail","expand","reorder","bin"}
SPECIFICATION Spec
INVARIANT InvShaped
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
