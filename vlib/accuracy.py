"""C01-C10: accuracy of the scalar functions."""
from .core import *

FUNCS = {
    "C01": ["fast_exp"],
    "C02": ["fast_log"],
    "C03": ["fast_sin", "fast_cos", "fast_sincos"],
    "C04": ["fast_tan"],
    "C05": ["fast_asin", "fast_acos"],
    "C06": ["fast_atan"],
    "C07": ["fast_atan2"],
    "C08": ["fast_tanh"],
    "C09": ["fast_isqrt", "fast_approx_isqrt", "isqrt"],
    "C10": ["fast_inv", "fast_approx_inv", "inv"],
}


def accuracy(c):
    lits = c.literals()
    exe = c.monitor("acc", ["acc.cpp"])
    fs = FUNCS[c.id]
    chunks = (10000 if c.quick else 100000) // (2 if len(fs) > 1 else 1)
    if c.id == "C07":
        chunks *= 3
    for f in fs:
        c.run([exe, "--id=" + f, "--seed=%d" % c.seed, "--chunks=%d" % chunks, "--stride=1", "--turns=1",
               "--threads=%d" % CORES, "--lits=" + lits], label="acc " + f, timeout=400 if c.quick else 5000)
    c.assumptions = ["long double libm (double functions) and double libm (float functions) as first reference, libquadmath for suspected violations",
                     "default build: " + " ".join(DEFAULT)]
    c.notes["exhaustive over all float patterns"] = c.id != "C07"
