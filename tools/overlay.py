#!/usr/bin/env python3
"""overlay.py KIND OUTDIR OVERLAY.json - writes the build overlay KIND for the tree at VERIF_REPO."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
repo = os.environ.get("VERIF_REPO", "/repo")
build = os.environ.get("VERIF_BUILD", os.path.join(here, "..", "build"))
kind, out, ov = sys.argv[1:4]
KINDS = {"yield": ["internal/engine/memdb", "internal/engine/mongodb", "internal/controller", "internal/middleware", "internal/nonce", "."]}
gen = os.path.join(build, "yieldgen")
subprocess.check_call(["go", "build", "-modfile=" + os.path.join(build, "mod", "go.mod"), "-o", gen, "./yieldgen"], cwd=os.path.join(here, "..", "harness"))
subprocess.check_call([gen, repo, out, ov] + KINDS[kind])
