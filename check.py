#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of jotdown as /repo has it now.
check.py setup: parse the specification and build the harness.
check.py judge PROPERTY TEXT: judge one document (written as a JSON string or as hex:...)."""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
sys.dont_write_bytecode = True
import core
import docs
import other

RUN = {p: docs.run for p in docs.FOCUS}
RUN.update(C02=docs.total, C04=other.views, C14=other.attrs, C15=other.attrs, C21=other.sinks, C22=other.cli,
           C24=other.reuse, C25=other.kinds)

ASSUME = [
    "the specification in spec/ says what djot and jotdown's documentation intend; it is judged by the implementation's tests only where they sample it",
    "inputs beyond the enumerated families are generated at random, so the check is exhaustive only up to the stated depths",
    "the harness and jotdown's public Event, Attributes and Renderer types report faithfully; TLC evaluates the specification correctly",
]


def setup():
    import subprocess
    c = core.Check("setup", "quick", 1)
    c.build()
    for m in sorted(os.listdir(core.SPEC)):
        if m.endswith(".tla"):
            r = subprocess.run(["java", "-cp", core.JARS, "-DTLA-Library=" + core.SPEC, "tla2sany.SANY", os.path.join(core.SPEC, m)],
                               capture_output=True, text=True)
            if r.returncode != 0 or "*** Errors" in r.stdout:
                print(r.stdout[-2000:])
                return 2
    import shutil
    shutil.rmtree(c.dir, ignore_errors=True)
    print("ready")
    return 0


def judge(prop, text):
    import json
    c = core.Check(prop, "quick", 1)
    h = text[4:] if text.startswith("hex:") else json.loads(text).encode().hex()
    docs.judge_docs(c, c.build(), [h])
    for v in c.violations:
        print(v["what"])
    import shutil
    shutil.rmtree(c.dir, ignore_errors=True)
    return 1 if c.violations else 0


def main():
    if sys.argv[1] == "setup":
        return setup()
    if sys.argv[1] == "judge":
        return judge(sys.argv[2], sys.argv[3])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    c = core.Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        RUN[prop](c)
    except core.Broken as e:
        if not c.violations:
            print(f"{prop}: the check itself failed: {e}", file=sys.stderr)
            return 2
        print(f"{prop}: incomplete: {e}", file=sys.stderr)
    except Exception:
        if not c.violations:
            traceback.print_exc()
            return 2
    return c.finish(ASSUME)


if __name__ == "__main__":
    sys.exit(main())
