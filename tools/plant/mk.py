"""mk.py: builds /verif/seeded/<id>/ from bugs.py entries and validates them in a scratch copy."""
import json, os, shutil, subprocess, sys, importlib.util
SEED='/verif/seeded'; W='/tmp/seedwork'; R=W+'/repo'
env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTC_WRAPPER='', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=R+'/target')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.isdir(R): sh(f'cp -a /repo {R}')
    sh(f'git -C {R} fetch -q /repo HEAD; git -C {R} checkout -q -f FETCH_HEAD; git -C {R} clean -fdq')
def build(tests=False):
    sh(f'rm -rf {R}/target/debug/.fingerprint/mapeditr-*')
    return subprocess.run('cargo build --workspace --offline' if not tests else 'cargo test --workspace --offline -- --test-threads 8', shell=True, cwd=R, env=env, capture_output=True, text=True)
def demo(d):
    t='/tmp/seedwork/demo'; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for f in os.listdir(t):
        if f.endswith(('.diff','.patch')) or f=='meta.json': os.remove(t+'/'+f)
    try: return subprocess.run(['bash', t+'/demo.sh'], cwd=R, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired: return None
def make(b):
    d=f"{SEED}/{b['id']}"
    fresh()
    for f,a,c in b['edits']:
        p=f'{R}/src/{f}'; s=open(p).read()
        if s.count(a)!=1: return f'edit does not apply ({s.count(a)}): {f}: {a[:60]!r}'
        open(p,'w').write(s.replace(a,c))
    diff=sh(f'git -C {R} diff').stdout
    r=build()
    if r.returncode: return 'does not build:\n'+r.stderr[-1500:]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(b['demo'].lstrip('\n'))
    shutil.copy(W+'/mt.py', d+'/mt.py')
    for f in b.get('files',[]): shutil.copy(W+'/'+f, d+'/'+f)
    open(d+'/demo.sh','w').write(b.get('sh') or '#!/bin/bash\n# Exit 0 if the property holds in this scenario.\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']}, open(d+'/meta.json','w'), indent=1)
    x=demo(d)
    if x is None or x.returncode==0: return 'demo passes with the bug: '+((x.stdout+x.stderr)[-600:] if x else 'timeout')
    if b.get('assert_ok',True) and 'AssertionError' not in x.stderr and x.returncode!=3: return 'demo fails oddly: '+x.stderr[-800:]
    t=build(True)
    if t.returncode: return 'tests fail:\n'+t.stdout[-1500:]
    fresh(); build()
    x=demo(d)
    if x is None or x.returncode: return 'demo fails on the unchanged tree: '+(x.stderr if x else 'timeout')[-1500:]
    return None
if __name__=='__main__':
    spec=importlib.util.spec_from_file_location('bugs', sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if not b['needs']: continue
        if len(sys.argv)>2 and b['id'] not in sys.argv[2:]: continue
        e=make(b)
        print(b['id'], 'OK' if e is None else 'FAIL: '+e, flush=True)
        if e:
            shutil.rmtree(f"{SEED}/{b['id']}", ignore_errors=True)
