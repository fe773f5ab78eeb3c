"""What the proofs rest on besides z3/cvc5 and the engine itself."""
TRUSTED = [
    "numpy, pandas, bitarray, pathlib, copy, ast, tempfile: contracts in vc/fakes.py, vc/nparr.py, vc/pdfake.py, vc/frames.py, vc/classfake.py (compared with the real packages on "
    "concrete inputs by vc/selftest.py)",
    "the loader's rewrites (vc/loader.py, listed in its header) preserve the meaning of the source",
]
ASSUMPTIONS = [
    "floating point arithmetic is treated as exact real arithmetic with nan and infinities",
    "machine integers are treated as mathematical integers, except the wrap-around of unsigned 8-bit arithmetic where it matters",
    "files are changed by this process only",
    "logging, warnings, time measurements and progress bars have no effect on results",
]
