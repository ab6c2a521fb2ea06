SPECIFICATION Spec
CONSTANTS N = 8
          Dim = 2
          Windows = {1, 2, 3, 4}
          MaxKey = 2
INVARIANTS Rotated KeysExist Pending Live
CHECK_DEADLOCK FALSE
