"""RELAX NG validation in a long-lived helper process (system Python with lxml; no path of the code under test)."""
import os, subprocess, sys

HELPER = r"""
import sys
from lxml import etree
rng = etree.RelaxNG(etree.parse(sys.argv[1]))
print("ready", flush=True)
for line in sys.stdin:
    p = line.rstrip("\n")
    try:
        d = etree.parse(p)
        if rng.validate(d):
            print("ok", flush=True)
        else:
            print("invalid " + " | ".join("%s:%s %s" % (e.line, e.path, e.message) for e in list(rng.error_log)[:3]).replace("\n", " "), flush=True)
    except Exception as e:
        print("error " + repr(e).replace("\n", " "), flush=True)
"""


class Validator:
    def __init__(self, schema):
        self.p = subprocess.Popen(["/usr/bin/python3", "-c", HELPER, schema], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        line = self.p.stdout.readline()
        if line != b"ready\n":
            raise RuntimeError("schema helper: %r" % line)

    def check(self, path):
        """None or the reason of invalidity."""
        self.p.stdin.write(os.fsencode(path) + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline().decode().strip()
        if not line:
            raise RuntimeError("schema helper died")
        return None if line == "ok" else line


_V = {}


def validate(schema, path):
    k = (os.getpid(), schema)
    if k not in _V:
        _V[k] = Validator(schema)
    return _V[k].check(path)
