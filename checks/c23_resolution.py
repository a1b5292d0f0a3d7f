"""C23: every name, argument and import of the package resolves."""
import os

from fvsa import harness as H
from fvsa import interp as I
from fvsa import resolve as V

TITLE = "names, arguments and imports"
TECHNIQUE = "whole-package symbol resolution over the syntax trees: scope analysis, import graph, attribute tables over class hierarchies, call-signature binding, may-assigned dataflow of locals; plus abstract interpretation of every module body with and without the optional GPU library"
EXPLANATION = (
    "Every name use is resolved through its scopes to a definition, every import to a module and definition, every attribute of a package module, package class or standard/numerical library module to an existing one, "
    "every call of a package function, class or method (and of library functions with known signature) is bound to its signature, every tuple unpacking to the number of returned values, and no local variable may be read where no assignment reaches. "
    "Only constructs that fail whenever they are reached are reported; what cannot be resolved is not judged. All module bodies are also interpreted in both import orders, with and without GPU library."
)
ASSUMPTIONS = ["the names and signatures of the installed library versions are those recorded in fvsa/extnames.json", "objects whose class cannot be inferred from a constructor call, an annotation or self are not judged"]


def lint(c, mod, rule):
    P = V.Package(I.REPO, "fvhoe")
    if mod in P.err:
        e = P.err[mod]
        c.ok(False, "syntax", f"{e.msg}", (P.mods[mod], e.lineno, "<module>"), "syntax")
        return
    R = V.Report()
    V.RULES[rule](P, mod, R)
    for k, n in R.count.items():
        for _ in range(n):
            c.count(k)
    for k, msg, site in R.bad:
        if V.excused(P, mod, k, msg, site[1]):
            continue
        c.fail(k, msg, V.where(P, site), k)


def load(c, order, cupy):
    for m in order:
        c.interp(cupy=cupy)
        for q in [m] if isinstance(m, str) else m:
            c.guard(lambda: c.it.load(q), "module-loads", f"import of {q}", "module-loads")


def cases(tier):
    P = V.Package(I.REPO, "fvhoe")
    out = []
    for m in sorted(P.mods):
        for r in V.RULES:
            out.append((f"{r} {m}", lint, dict(mod=m, rule=r)))
    ms = sorted(m for m in P.mods if m != "fvhoe")
    for cupy in (False, True):
        out.append((f"each module alone, GPU library {cupy}", load, dict(order=ms, cupy=cupy)))
        out.append((f"all modules in turn, GPU library {cupy}", load, dict(order=[ms], cupy=cupy)))
        out.append((f"all modules in reverse, GPU library {cupy}", load, dict(order=[ms[::-1]], cupy=cupy)))
    return out
