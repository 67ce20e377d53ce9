#!/usr/bin/env python3
"""Writes mirror/: /repo's workspace with its git dependencies replaced by the
stand-ins of core/shims. crates/ is a symlink to /repo/crates; Cargo.toml is
/repo's with fewer members. Nothing else differs."""
import os, re, sys, tomllib
here = os.path.dirname(os.path.abspath(__file__))
ws = os.path.dirname(here) + "/mirror"
MEMBERS = ["crates/core", "crates/attestation", "crates/tls-core", "crates/data-fixtures", "crates/components/cipher", "crates/components/deap", "crates/components/hmac-sha256", "crates/components/key-exchange", "crates/mpc-tls", "crates/tlsn", "crates/formats", "crates/sdk-core", "crates/server-fixture/certs"] + sys.argv[1:]
os.makedirs(ws, exist_ok=True)
if not os.path.islink(ws + "/crates"):
    os.symlink("/repo/crates", ws + "/crates")
text = open("/repo/Cargo.toml").read()
text = re.sub(r"^members\s*=\s*\[.*?^\]", "members = [" + ", ".join(f"\"{m}\"" for m in MEMBERS) + "]", text, count=1, flags=re.M | re.S)
out = []
for line in text.splitlines():
    m = re.match(r"([\w-]+)\s*=\s*\{\s*git\s*=\s*\"[^\"]*\",\s*rev\s*=\s*\"[^\"]*\"(.*)\}\s*$", line)
    if m and os.path.isdir(f"{here}/shims/{m[1]}"):
        line = f'{m[1]} = {{ path = "{here}/shims/{m[1]}"{m[2]}}}'
    out.append(line)
text = "\n".join(out) + "\n"
tomllib.loads(text)
p = ws + "/Cargo.toml"
if not os.path.exists(p) or open(p).read() != text:
    open(p, "w").write(text)
