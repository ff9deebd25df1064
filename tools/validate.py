#!/usr/bin/env python3
"""Compare the executor with native runs on the repository's own test inputs.

Not a check: everything here is concrete.  It runs the images and rasters of
gift's tests through the IR executor and natively, and compares digests of all
that comes out.
"""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
import check  # noqa: E402

JOBS = [(e, p) for e in ("val_blocks", "val_steps", "val_again") for p in range(3)] + \
    [("val_encode", p) for p in range(3)]


def main():
    build = tempfile.mkdtemp(prefix="gsym-val-")
    try:
        hd = check.harness_dir(build)
        _, ll, exe = check.parallel([lambda: check.build_engine(build), lambda: check.build_ir(build, hd, "val"),
                                     lambda: check.build_replay(build, hd, "val")])
        check.CHECKS["val"] = {}
        rn = check.Runner("val", "thorough", 1, build)
        for i, (entry, p) in enumerate(JOBS):
            job = {"entry": entry, "params": [p], "max_steps": 2000000000}
            r = rn.gsym(i, job, ll)
            rn.validate(i, job, exe)
            if r["status"] != "ok" or rn.stop or rn.validated != i + 1:
                print(entry, p, r["status"], r.get("msg"), r.get("where"), rn.stop)
                return 1
            print(entry, p, "agrees:", r["instructions"], "instructions,", rn.sample_list[-1]["result_digest"])
        return 0
    finally:
        shutil.rmtree(build, ignore_errors=True)


sys.exit(main())
