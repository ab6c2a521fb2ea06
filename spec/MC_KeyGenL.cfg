SPECIFICATION Spec
CONSTANTS Jobs = 8
          Workers = 3
INVARIANTS OnceEach Complete FreshRandomness
CHECK_DEADLOCK FALSE
