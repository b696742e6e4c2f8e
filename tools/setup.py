#!/usr/bin/env python3
"""Builds every check once, so that later runs only recompile what changed."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from specs import SPECS


def main():
    # compile everything in one go per profile, so that the cores stay busy, then link
    wanted = {}
    for pid, spec in SPECS.items():
        profile = spec.get("profile", "plain")
        srcs = [os.path.join(vbuild.VERIF, s) for s in spec["own"]]
        if spec["repo"] == "library":
            srcs += vbuild.library_sources() + [os.path.join(vbuild.REPO, s) for s in spec.get("extra", [])]
        else:
            srcs += [os.path.join(vbuild.REPO, s) for s in spec["repo"] if os.path.exists(os.path.join(vbuild.REPO, s))]
        wanted.setdefault(profile, {})[pid] = srcs
    for profile, by in wanted.items():
        every = list(dict.fromkeys(s for srcs in by.values() for s in srcs))
        try:
            vbuild.compile_all(every, profile)
        except vbuild.CompileError as e:
            print(str(e)[:4000])
        for pid, srcs in by.items():
            try:
                vbuild.build(pid, srcs, profile)
            except vbuild.CompileError as e:
                print(pid, str(e)[:2000])
    return 0


sys.exit(main())
