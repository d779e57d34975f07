"""Runs scenarios concretely over the product as it is (no instrumentation).

As a server: one JSON request per line on stdin, one JSON answer per line on
stdout; every request runs in a forked child.  From the command line:
    python symex/replay.py FILE     (a file written for a violation)
"""
from __future__ import annotations

import hashlib
import importlib.util
import json
import logging
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

_mods = {}


def load(check):
    m = _mods.get(check)
    if m is None:
        path = os.path.join(HERE, "checks", f"{check}.py")
        spec = importlib.util.spec_from_file_location(f"checks_con.{check}", path)
        m = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = m
        spec.loader.exec_module(m)
        _mods[check] = m
    return m


class Digests:
    """hashlib.sha256 with the given first digits for the given texts."""

    real = hashlib.sha256
    name, digest_size, block_size = "sha256", 32, 64

    def __init__(self, first, data=b"", **kw):
        self.first, self.data = first, bytearray(data)

    def update(self, data):
        self.data.extend(data)

    def copy(self):
        return Digests(self.first, bytes(self.data))

    def hexdigest(self):
        first = self.first.get(self.data.hex())
        return first * 8 if first else Digests.real(bytes(self.data)).hexdigest()

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def run(check, shape, assignment, known):
    from symex.api import ConS, Violated
    from symex.core import Abort

    mod = load(check)
    if "#sha256" in assignment:
        first = dict(assignment["#sha256"])
        hashlib.sha256 = lambda data=b"", **kw: Digests(first, data)
    S = ConS(assignment, shape, known)
    status, msg = "done", ""
    try:
        mod.scenario(S)
    except Violated:
        status = "violated"
        msg = "; ".join(f"{k}: {m}" for k, m in S.failures)
    except Abort:
        status = "abort"
    except Exception as e:  # noqa: BLE001
        status = "exception"
        msg = "".join(traceback.format_exception_only(type(e), e)).strip() + " | " + "".join(
            traceback.format_tb(e.__traceback__)[-3:])
    obs = []
    if status == "done":
        obs = [[k, v] for k, v in S.observations]
    return dict(status=status, msg=msg, keys=[k for k, _ in S.failures], observations=obs,
                found=[list(f) for f in S.found])


def forked(req):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            out = run(req["check"], req["shape"], req["assignment"], req.get("known", ()))
        except BaseException:  # noqa: BLE001
            out = dict(status="crash", msg=traceback.format_exc(), keys=[], observations=[], found=[])
        with os.fdopen(w, "w") as f:
            json.dump(out, f, default=str)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return data or json.dumps(dict(status="crash", msg="no answer", keys=[], observations=[], found=[]))


def main():
    logging.disable(logging.CRITICAL)
    if len(sys.argv) > 1 and sys.argv[1] != "--server":
        doc = json.load(open(sys.argv[1], encoding="utf-8"))
        seed = str(doc.get("hashseed", 0))
        if os.environ.get("PYTHONHASHSEED") != seed:
            os.environ["PYTHONHASHSEED"] = seed
            os.execv(sys.executable, [sys.executable, *sys.argv])
        out = run(doc["check"], doc["shape"], doc["assignment"], ())
        print(json.dumps(out, indent=1, default=str))
        sys.exit(1 if out["status"] in ("violated", "exception") else 0)
    for c in sys.argv[2:]:
        load(c)
    out = os.fdopen(os.dup(1), "w")
    for line in sys.stdin:
        req = json.loads(line)
        out.write(forked(req).replace("\n", " ") + "\n")
        out.flush()


if __name__ == "__main__":
    main()
