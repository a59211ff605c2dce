#!/usr/bin/env python3
"""mkseed.py SPEC.py [id...]: turns seed descriptions into /verif/seeded/<id>/ and confirms each in a scratch copy.
A spec file holds a list SEEDS of dicts: id, property, edits=[(file,old,new)], needs, breaks, deps={crate:features}, main (body of main.rs)."""
import sys,os,json,subprocess,shutil
W='/tmp/seedwt'
def sh(c,cwd=None,**k): return subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
# builds main.rs against the crates of the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$d/main.rs" "$t/src/" && cp Cargo.lock "$t/" || exit 3
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
[profile.dev]
opt-level = 1
debug = 0
X
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2026-04-01} PATH=/root/.cargo/bin:$PATH
CARGO_TARGET_DIR="$t/target" timeout 250 cargo run -q --offline --manifest-path "$t/Cargo.toml"
'''
def main():
    g={}; exec(open(sys.argv[1]).read(),g)
    base=json.load(open('/opt/vp/BASELINE.json'))['stable']
    if not os.path.exists(W): sh('cp -a /repo '+W)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD',W)
    for s in g['SEEDS']:
        if len(sys.argv)>2 and s['id'] not in sys.argv[2:]: continue
        d='/verif/seeded/'+s['id']
        if os.path.exists(d+'/patch.diff') and len(sys.argv)<=2: continue
        sh('git checkout -q -- .',W)
        ok=True
        for f,o,n in s['edits']:
            p=W+'/'+f; t=open(p).read()
            if t.count(o)!=1: print(s['id'],'EDIT count',t.count(o),f); ok=False; break
            open(p,'w').write(t.replace(o,n))
        if not ok: continue
        diff=sh('git diff',W).stdout
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        open(d+'/patch.diff','w').write(diff)
        deps='\n'.join('%s = %s'%(k,v) if isinstance(v,str) else '%s = { path = "$PWD/crates/%s"%s }'%(k,k,(', features = [%s]'%','.join('"%s"'%x for x in v)) if v else '') for k,v in s['deps'].items())
        open(d+'/demo.sh','w').write(DEMO%deps); os.chmod(d+'/demo.sh',0o755)
        open(d+'/main.rs','w').write(s['main'])
        json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
        env='cd %s && . /opt/vp/env.sh; cd %s; '%(W,W)
        t=sh("bash -c 'sed s#/repo#%s#g /opt/vp/env.sh > /tmp/seedenv.sh; . /tmp/seedenv.sh; cd %s; cargo test --workspace --no-fail-fast --offline --features \"$FEATURES\" -- --test-threads 8 > /tmp/seed.log 2>&1'"%(W,W))
        sh('python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log')
        try: passed=set(json.load(open('/tmp/seed.json'))['passed'])
        except Exception: passed=set()
        miss=[x for x in base if x not in passed]
        a=sh(d+'/demo.sh',W)
        sh('git checkout -q -- .',W)
        b=sh(d+'/demo.sh',W)
        good=not miss and a.returncode not in(0,3) and b.returncode==0
        print(s['id'],s['property'],'OK' if good else 'BAD','tests missing %d'%len(miss),miss[:3],'patched',a.returncode,'clean',b.returncode)
        if not good:
            print(a.stdout[-200:]); print('---'); print([l for l in b.stdout.splitlines() if "error" in l or "panicked" in l or "E0" in l][:8])
            if miss: print(sh('tail -5 /tmp/seed.log; grep -n "^error" -A6 /tmp/seed.log | head -20').stdout)
            shutil.rmtree(d)
main()
