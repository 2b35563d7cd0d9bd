"""Runs under the repository's interpreter: prints the syntax tree of a .pyx file, as Cython's own parser builds it, as JSON."""
import json
import sys

from Cython.Compiler import Nodes
from Cython.Compiler.TreeFragment import parse_from_strings


def dump(n):
    if isinstance(n, list):
        return [dump(x) for x in n]
    if isinstance(n, Nodes.Node):
        o = {"_": type(n).__name__, "line": n.pos[1] if n.pos else 0}
        for k, v in vars(n).items():
            if k not in ("pos", "is_parsed_expr") and isinstance(v, (Nodes.Node, list, str, int, float, bool)):
                o[k] = dump(v)
        return o
    return n if isinstance(n, (str, int, float, bool, type(None))) else str(n)


src = open(sys.argv[1]).read()
print(json.dumps(dump(parse_from_strings("pyx", src, level="module"))))
