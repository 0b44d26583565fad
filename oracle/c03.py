from .lib import *
run_case, gen_cases = expr_oracle({'C03'})
