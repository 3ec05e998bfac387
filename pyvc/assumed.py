"""What a discharged obligation rests on."""
from .models import ASSUMED


def trusted_base():
    return [
        "z3 (and cvc5 where the evidence names it): unsat answers",
        "pyvc engine (/verif/pyvc): path exploration and the symbolic models of int, bool, bytes, str, list and the standard-library functions listed in engine_models_used; cross-checked on every run by executing the same contracts on the uninstrumented code",
        "CPython 3.12 executing the instrumented source (AST rewriting in pyvc/instrument.py; dropped: statements log.<method>(...) and annotations)",
        "harness environment stubs (fake transport, serializer, process, clock) where a contract is stated over them; each is an assumed contract on a dependency",
        "loop contracts: a mutable list replaced by its contract value at a cut point is assumed not aliased outside the function's locals",
        "float arithmetic treated as real arithmetic; bytes lengths unbounded mathematical integers",
    ]


def for_models(models):
    return ["assumed library model: %s" % ASSUMED.get(m, m) for m in sorted(models)]
