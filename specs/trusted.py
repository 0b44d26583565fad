TRUSTED = [
    'pyvc (this directory): the operational semantics of the Python subset it interprets and its path enumeration',
    'z3: satisfiability answers',
    'machine floats and ints are treated as mathematical reals and integers; NaN, infinities and rounding are out of scope',
    'is / is not on strings is treated as equality (CPython interning of literals)',
    'sympy, numpy, pandas and the standard library by the contracts written in pyvc/symx.py, pyvc/extlib.py and pyvc/builtins_model.py',
]
