#!/bin/bash
# plant.sh ID: the change in the scratch copy /tmp/seed (a 'cp -a' of /repo) becomes /verif/seeded/ID, once it is
# confirmed to build, to pass the stable tests, and to be shown by seeded/ID/demo.sh (main.rs and meta.json lie there).
id="$1"; d=/verif/seeded/$id
[ -f $d/main.rs ] && [ -f $d/meta.json ] || { echo "no main.rs/meta.json"; exit 1; }
git -C /tmp/seed diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cat > $d/demo.sh <<E
#!/bin/bash
# Run in /repo: exit 0 if the property's demonstration holds there.
here="\$(cd "\$(dirname "\$0")" && pwd)"
repo="\$PWD"
rm -rf /tmp/vp-demo-$id
mkdir -p /tmp/vp-demo-$id/src
cp "\$here/main.rs" /tmp/vp-demo-$id/src/main.rs
cp "\$repo/Cargo.lock" /tmp/vp-demo-$id/ 2>/dev/null
cat > /tmp/vp-demo-$id/Cargo.toml <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
asciidoc-parser = { path = "\$repo/parser" }
[workspace]
T
cd /tmp/vp-demo-$id || exit 3
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/tmp/vp-demo-$id/target timeout 250 cargo run --offline -q
rc=\$?
cd /
rm -rf /tmp/vp-demo-$id
exit \$rc
E
(cd /repo && bash $d/demo.sh > /tmp/st/demo0 2>&1) || { echo "demo fails on the unchanged tree"; tail -5 /tmp/st/demo0; exit 1; }
bash /tmp/st/build.sh > /tmp/st/b.log 2>&1 || { echo "does not build"; tail -30 /tmp/st/b.log; exit 1; }
bash /tmp/st/test.sh /tmp/st/out.json > /tmp/st/t.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/st/out.json'))
k=[x for x in b if isinstance(b[x],list)][0]
pk=[x for x in o if 'pass' in x][0]
m=sorted(set(b[k])-set(o[pk]))
print(len(b[k]),'stable tests; missing',m[:8], len(m))
sys.exit(bool(m))
P
if (cd /tmp/seed && bash $d/demo.sh > /tmp/st/demo1 2>&1); then echo "demo passes with the change"; exit 1; fi
grep -aE 'panicked|assert|left|right|error|signal' /tmp/st/demo1 | head -5
git -C /tmp/seed checkout -q -- .
echo "PLANTED $id"
