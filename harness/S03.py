"""Commit message gate."""
import logging, os, shutil, sys, tempfile
import pyh
from pathlib import Path
import py_repository.repo_hooks.validate_commit_message as gate
logging.disable(logging.CRITICAL)


class S:
    def op(self, o):
        d = tempfile.mkdtemp(dir=os.getcwd())
        try:
            p = os.path.join(d, "MSG")
            text = bytes(o["t"])
            with open(p, "wb") as f:
                f.write(text)
            sys.argv = ["commit-msg", p] + ["x"] * o["extra"]
            try:
                rc = gate.main()
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 1
            except Exception as e:
                return dict(v=f"raised {type(e).__name__}", keep=False, saved=False, copy=[], files=0)
            left = sorted(os.listdir(d))
            other = [x for x in left if x != "MSG"]
            copy = open(os.path.join(d, "MSG.failed"), "rb").read() if "MSG.failed" in left else b""
            return dict(v={0: "accept", 1: "reject", 2: "usage"}.get(rc, str(rc)), keep=open(p, "rb").read() == text, saved="MSG.failed" in left, copy=list(copy), files=len(other))
        finally:
            shutil.rmtree(d, ignore_errors=True)


pyh.main(S)
