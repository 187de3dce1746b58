#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, prop, edits=[(file, old, new)], main (Rust main.rs text), needs, breaks.
Creates seeded/<id>/ with patch.diff, demo.sh, main.rs, Cargo.toml, Cargo.lock, meta.json (working on a scratch copy of the files)."""
import sys, os, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(sys.argv[1]).read(), ns)
for sp in ns['seeds']:
    d = os.path.join(ROOT, 'seeded', sp['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ''
    files = {}
    for f, old, new in sp['edits']:
        s = files.get(f) or open('/repo/' + f).read()
        assert s.count(old) == 1, (sp['id'], f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        for k in 'ab': os.makedirs(os.path.dirname(os.path.join(t, k, f)), exist_ok=True)
        shutil.copy('/repo/' + f, os.path.join(t, 'a', f)); open(os.path.join(t, 'b', f), 'w').write(s)
        diff += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, stdout=subprocess.PIPE).stdout.decode()
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(sp['main'])
    open(d + '/Cargo.toml', 'w').write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n[[bin]]\nname = "demo"\npath = "main.rs"\n\n[dependencies]\nplonky = { path = "/repo" }\nplookup = { path = "/repo/plookup" }\nnum = "0.3.0"\nrand = "0.7.3"\nrand_chacha = "0.2.2"\nanyhow = "1.0.31"\n')
    s = open(os.path.join(ROOT, 'replay/Cargo.lock')).read().replace('name = "replay"', 'name = "demo"')
    open(d + '/Cargo.lock', 'w').write(s)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property held on the demonstration's input; nonzero: it did not
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp "$HERE/main.rs" "$HERE/Cargo.toml" "$HERE/Cargo.lock" "$W/"
. /opt/vp/env.sh
cd "$W" && CARGO_TARGET_DIR="$W/target" CARGO_INCREMENTAL=0 timeout 280 cargo run --offline --quiet
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': sp['prop'], 'needs': sp['needs'], 'what_it_breaks': sp['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(sp['id'])
