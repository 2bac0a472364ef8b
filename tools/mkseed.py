#!/usr/bin/env python3
"""mkseed.py <spec.py>...: writes seeded/<id>/ from a description: edits to /repo's files (in a scratch clone) and a demo crate; ONLY=ids limits it"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)]; demo: callable(dir) writing demo.sh and its files"""
    only = os.environ.get("ONLY")
    if only and id not in only.split():
        return
    d = os.path.join(ROOT, "seeded", id)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "clone", "-q", "--shared", os.environ.get("SEED_REPO", "/repo"), t], check=True)
        for f, old, new in edits:
            p = os.path.join(t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True).stdout
        assert diff
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    demo(d)
