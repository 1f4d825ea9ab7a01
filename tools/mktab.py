"""Writes spec/FnTables.tla: values (times 1000, rounded) of the transcendental
functions of ONNX at multiples of 1/4."""
import math
R = range(-16, 17)
sg = lambda x: 1 / (1 + math.exp(-x))
sp = lambda x: math.log1p(math.exp(x))
F = {
    "Exp": (math.exp, R), "Log": (math.log, range(1, 129)), "Sqrt": (math.sqrt, range(0, 257)),
    "Sin": (math.sin, R), "Cos": (math.cos, R), "Tan": (math.tan, range(-5, 6)),
    "Sinh": (math.sinh, R), "Cosh": (math.cosh, R), "Asin": (math.asin, range(-4, 5)),
    "Acos": (math.acos, range(-4, 5)), "Atan": (math.atan, R), "Asinh": (math.asinh, R),
    "Acosh": (math.acosh, range(4, 33)), "Atanh": (math.atanh, range(-3, 4)),
    "Sigmoid": (sg, R), "Tanh": (math.tanh, R), "Erf": (math.erf, R), "Softplus": (sp, R),
    "Softsign": (lambda x: x / (1 + abs(x)), R),
    "Elu": (lambda x: x if x >= 0 else math.expm1(x), R),
    "Celu": (lambda x: x if x >= 0 else math.expm1(x), R),
    "Selu": (lambda x: 1.0507009873554805 * (x if x > 0 else 1.6732632423543772 * math.expm1(x)), R),
    "Gelu": (lambda x: .5 * x * (1 + math.erf(x / math.sqrt(2))), R),
    "GeluTanh": (lambda x: .5 * x * (1 + math.tanh(math.sqrt(2 / math.pi) * (x + .044715 * x ** 3))), R),
    "ErfR2": (lambda x: math.erf(x / math.sqrt(2)), R),
    "TanhG": (lambda x: math.tanh(math.sqrt(2 / math.pi) * (x + .044715 * x ** 3)), R),
    "Mish": (lambda x: x * math.tanh(sp(x)), R),
    "HardSwish": (lambda x: x * max(0, min(1, x / 6 + .5)), R),
}
o = ["------------------------------ MODULE FnTables ------------------------------",
     "(* Generated by tools/mktab.py: a thousand times the value of each function at",
     "   multiples of 1/4; lo is the first of them (in quarters).                  *)",
     "EXTENDS Integers, Sequences"]
for n, (f, r) in F.items():
    v = [round(1000 * f(c / 4)) for c in r]
    o.append(f"T_{n} == [lo |-> {r[0]}, t |-> <<" + ", ".join(map(str, v)) + ">>]")
o.append("\\* e^x for x <= 0, times a million")
o.append("ExpM == <<" + ", ".join(str(round(1e6 * math.exp(-c / 4))) for c in range(0, 129)) + ">>")
o.append("FnTab == [" + ",\n  ".join(f"{n} |-> T_{n}" for n in F) + "]")
o.append("=" * 77)
open("/verif/spec/FnTables.tla", "w").write("\n".join(o) + "\n")
