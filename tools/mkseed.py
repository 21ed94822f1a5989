#!/usr/bin/env python3
"""usage: mkseed.py SPEC   (SPEC: a python file defining id, prop, crate, edits=[(file, old, new)], needs, breaks, demo)
Plants a bug in a scratch copy of /repo, confirms that it builds, passes the stable tests and is
told apart by its demonstration, and keeps it as /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
S = "/tmp/seedrepo"; OUT = f"/verif/seeded/{spec['id']}"
sh = lambda c, **k: subprocess.run(c, shell=True, text=True, capture_output=True, **k)
if not os.path.isdir(S): sh(f"cp -a /repo {S}")
sh(f"git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD")
for f, old, new in spec["edits"]:
    t = open(f"{S}/{f}").read()
    assert t.count(old) == 1, (f, old, t.count(old))
    open(f"{S}/{f}", "w").write(t.replace(old, new))
os.makedirs(OUT, exist_ok=True)
open(f"{OUT}/patch.diff", "w").write(sh(f"git -C {S} diff").stdout)
open(f"{OUT}/demo.rs", "w").write(spec["demo"].lstrip())
c = spec["crate"]
extra = spec.get("deps", "")
run = "MIRIFLAGS='-Zmiri-many-seeds=0..16 -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks' cargo +nightly miri run -q --offline" if spec.get("miri") else "cargo run -q --offline"
open(f"{OUT}/demo.sh", "w").write(f'''#!/bin/bash
# run with cwd /repo: exits 0 when the demonstrated behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/src" && cp "$D/demo.rs" "$W/src/main.rs" && cp "$R/Cargo.lock" "$W/" || exit 2
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
{c} = {{ path = "$R/{c}" }}
anyhow = "1.0"
{extra}
[profile.dev]
debug = false
incremental = false
T
export RUSTUP_TOOLCHAIN=${{RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}} CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 TZ=UTC
unset RUSTFLAGS RUSTC_WRAPPER
cd "$W" && CARGO_TARGET_DIR=$W/target {run} 2>&1 | grep -v ^warning | tail -20
exit ${{PIPESTATUS[0]}}
''')
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(f"{OUT}/meta.json", "w"), indent=1)
# the stable tests, in the scratch copy
r = sh(f"""mkdir -p /tmp/seedtool; cd {S} && . <(sed 's#cd /repo#cd {S}#' /opt/vp/env.sh); J={S}/target/nextest/vp/junit.xml; rm -f $J
cargo nextest run --workspace --offline --no-fail-fast --test-threads 8 --tool-config-file vp:/opt/vp/nextest.toml --profile vp >/tmp/seedtool/n.log 2>&1
cargo test --workspace --doc --no-fail-fast --offline >/tmp/seedtool/d.log 2>&1
python3 /opt/vp/results.py /tmp/seedtool/o.json junit:$J cargo:/tmp/seedtool/d.log""", executable="/bin/bash")
got = set(json.load(open("/tmp/seedtool/o.json"))["passed"])
missing = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in got]
print("passed:", len(got), "missing:", missing[:10])
p = sh(f"cd {S} && bash {OUT}/demo.sh"); print("patched demo:", p.returncode, p.stdout[-300:])
sh(f"git -C {S} checkout -q -- .")
u = sh(f"cd {S} && bash {OUT}/demo.sh"); print("clean demo:", u.returncode, u.stdout[-300:])
good = not missing and p.returncode != 0 and u.returncode == 0 and "error" not in p.stdout[:0]
print("KEEP" if good else "BAD", spec["id"])
if not good and "--force" not in sys.argv: shutil.move(OUT, f"/tmp/bad_{spec['id']}") if not os.path.exists(f"/tmp/bad_{spec['id']}") else shutil.rmtree(OUT)
