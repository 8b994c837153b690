"""Numbers and strings that occur in the source of the code under test.

Used like a fuzzer's dictionary: the generators mix them (and their neighbours) in,
so behaviour that hinges on a particular constant is reached.
"""
import ast
import glob
import json
import os

from .env import SRC, VERIF

SKIP = {"_version.py"}


def _harvest():
    numbers, strings = set(), set()
    pattern = os.path.join(SRC, "openscm_twolayermodel", "**", "*.py")
    for path in sorted(glob.glob(pattern, recursive=True)):
        if os.path.basename(path) in SKIP:
            continue
        with open(path) as fh:
            tree = ast.parse(fh.read())
        docs = set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                docs.add(id(node.value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                val = node.value
                if isinstance(val, bool):
                    continue
                if isinstance(val, (int, float)) and abs(val) < 1e300:
                    numbers.add(val)
                elif isinstance(val, str) and 0 < len(val) <= 40:
                    strings.add(val)
            elif isinstance(node, ast.BinOp):
                # simple constant expressions such as 3.74 / 3 or 10 ** 6
                try:
                    if all(
                        isinstance(n, (ast.BinOp, ast.Constant, ast.operator, ast.UnaryOp, ast.unaryop))
                        for n in ast.walk(node)
                    ):
                        val = eval(compile(ast.Expression(node), "c", "eval"), {"__builtins__": {}})  # pylint: disable=eval-used
                        if isinstance(val, (int, float)) and abs(val) < 1e300:
                            numbers.add(val)
                except Exception:  # pylint: disable=broad-except
                    pass
    return sorted(numbers), sorted(strings)


NUMBERS, STRINGS = _harvest()
BORING = {0, 1, 2, -1}
PINNED = os.path.join(VERIF, "data", "literals.json")


def _novel():
    """Literals that the tree this machinery was written for does not have.

    They are offered more often: a change is more likely to hinge on them.
    """
    if not os.path.exists(PINNED):
        return [], []
    with open(PINNED) as fh:
        known = json.load(fh)
    return (
        [n for n in NUMBERS if n not in known["numbers"] and n not in BORING],
        [s for s in STRINGS if s not in known["strings"]],
    )


NOVEL_NUMBERS, NOVEL_STRINGS = _novel()


def lengths(lo, hi, novel=False):
    """Lengths suggested by the source's integer constants."""
    out = set()
    for n in NOVEL_NUMBERS if novel else NUMBERS:
        if n in BORING or n != int(n):
            continue
        for m in (int(n) - 1, int(n), int(n) + 1, int(n) + 2):
            if lo <= m <= hi:
                out.add(m)
    return sorted(out)


def values(lo, hi, novel=False, scales=(1,)):
    """Values suggested by the source's numeric constants, with close neighbours."""
    out = set()
    for n in NOVEL_NUMBERS if novel else NUMBERS:
        for scale in scales:
            for m in (n, -n, n * (1 + 1e-9), n * (1 - 1e-9), n + 1, n - 1, n * 2, n / 2):
                m = float(m * scale)
                if lo <= m <= hi:
                    out.add(m)
    return sorted(out)


def pin():
    with open(PINNED, "w") as fh:
        json.dump({"numbers": NUMBERS, "strings": STRINGS}, fh, indent=0)
        fh.write("\n")


if __name__ == "__main__":
    pin()
