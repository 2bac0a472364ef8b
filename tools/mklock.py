#!/usr/bin/env python3
"""mklock.py <dir>: a starting Cargo.lock for a harness crate: the repository's, without what is not in the cargo cache"""
import glob, os, re, sys
have = {os.path.basename(p)[:-6] for p in glob.glob(os.path.expanduser("~/.cargo/registry/cache/*/*.crate"))}
s = open("/repo/Cargo.lock").read()
head, *pkgs = s.split("[[package]]\n")
keep, drop = [], set()
for p in pkgs:
    n, v = re.search(r'name = "(.*)"', p)[1], re.search(r'version = "(.*)"', p)[1]
    if f"{n}-{v}" in have and "registry+" in p:
        keep.append((n, v, p))
    else:
        drop.add(n)
names = {}
for n, v, _ in keep:
    names.setdefault(n, []).append(v)
out = head
for n, v, p in keep:
    # forget dependencies on dropped packages
    def dep(m):
        d = m[1].split(" ")[0]
        return m[0] if d in names else ""
    p = re.sub(r'^ "([^"]+)",\n', dep, p, flags=re.M)
    out += "[[package]]\n" + p
open(os.path.join(sys.argv[1], "Cargo.lock"), "w").write(out)
