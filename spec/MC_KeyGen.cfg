SPECIFICATION Spec
CONSTANTS Jobs = 6
          Workers = 3
INVARIANTS OnceEach Complete FreshRandomness
PROPERTY Terminates
CHECK_DEADLOCK FALSE
