DEFAULT = 'every obligation of every contract is discharged for all inputs of the stated preconditions (unbounded loops by invariants); trusted: clang front end, the VC generator in vf/, z3, assumed C library contracts'
NOTE = {}
NA = {}
