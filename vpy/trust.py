TRUSTED = [
    "floating-point numbers are treated as real numbers; decimal literals as the simplest rational that rounds to them",
    "denominators in contract preconditions' range are non-zero where a quotient is formed; NaN is modelled as a separate flag, "
    "infinities are outside the claims",
    "the instrumentation (vpy/instrument.py) and symbolic executor (vpy/engine.py) implement Python's semantics for the constructs "
    "used; type annotations and docstrings are dropped",
    "assumed contracts of the numpy operations used (vpy/npstub.py), of the xarray operations used (vpy/xrstub.py) and of "
    "metpy / scipy / uxarray / math functions (vpy/stubs.py); each is also exercised by the run-time evaluation of the same contracts "
    "against the real libraries",
    "the prover's normaliser (vpy/terms.py), case splitting (vpy/prover.py) and z3; thorough tier re-checks every decisive unsat "
    "answer with cvc5",
    "array ranks are enumerated (0-3); sizes, contents and indices are symbolic and unbounded",
]
