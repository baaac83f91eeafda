#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]"""
import sys

sys.dont_write_bytecode = True
from vlib import engine, props_pipe, props_server, props_store

PROPS = {p.ID: p for m in (props_server, props_pipe, props_store) for p in m.ALL}

if __name__ == "__main__":
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check.py", "|".join(sorted(PROPS)), "[--tier ..] [--seed N] [--replay FILE]")
        sys.exit(2)
    sys.exit(engine.main(PROPS[sys.argv[1]](), sys.argv[1:]))
