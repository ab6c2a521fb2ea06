SPECIFICATION Spec
CONSTANTS N = 8
          Dim = 3
          Windows = {1, 2, 3, 4}
          MaxKey = 1
INVARIANTS Rotated KeysExist Pending Live
CHECK_DEADLOCK FALSE
