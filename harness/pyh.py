"""Scenario executor for the Python parts: reads one scenario per line, runs its operations against the real
code and prints one JSON result per operation.  It never judges."""
import json, os, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
for d in ("py_scriptutils", "py_repository", "py_codegen", "py_haxorg", "py_ci", "py_cli"):
    sys.path.insert(0, os.path.join(REPO, "scripts", d))


class Anything(types.ModuleType):
    """Module that is not installed here and that the code under test only mentions."""
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return type(name, (), {})


def pretend(*names):
    for n in names:
        m = Anything(n)
        sys.modules[n] = m
        if "." in n:
            setattr(sys.modules[n.rpartition(".")[0]], n.rpartition(".")[2], m)
    return sys.modules[names[0]]


def main(S):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    for line in sys.stdin:
        if not line.strip():
            continue
        sc = json.loads(line)
        out.write(f"B {sc['id']}\n")
        s = S()
        if hasattr(s, "start"):
            s.start(sc)
        for op in sc["ops"]:
            r = s.op(op)
            out.write("R " + json.dumps(r) + "\n")
        if hasattr(s, "stop"):
            s.stop()
        out.write(f"E {sc['id']}\n")
        out.flush()
    os._exit(0)
