#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in bugs/*.txt and confirms each one in a scratch clone.

usage: plant.py [id ...]"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))

def parse(path):
    """Sections: '== name args' followed by text."""
    out = []
    for part in re.split(r'^== ', open(path).read(), flags=re.M)[1:]:
        head, _, body = part.partition('\n')
        out.append((head.split(), body))
    return out

def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)

def main():
    ids = sys.argv[1:] or sorted(f[:-4] for f in os.listdir(here + '/bugs'))
    wt = '/tmp/plant-wt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', wt])
    run('git checkout -q -- . ; git clean -fdq -e target', wt)
    bad = []
    for i in ids:
        meta, edits, demo, sh, target = {}, [], None, 'demo.sh', None
        for head, body in parse(f'{here}/bugs/{i}.txt'):
            if head[0] in ('property', 'needs', 'what'):
                meta[head[0]] = ' '.join(head[1:]) + body.strip()
            elif head[0] == 'edit':
                old, new = body.split('\n=>\n')
                edits.append((head[1], old.rstrip('\n'), new.rstrip('\n')))
            elif head[0] == 'machine':
                sh, target = 'demo-machine.sh', head[1]
            elif head[0] == 'builds':
                sh = 'demo-builds.sh'
            elif head[0] == 'demo':
                demo = body
        def fail(m):
            print(f'{i}: {m}')
            bad.append(i)
        run('git checkout -q -- .', wt)
        d = f'{verif}/seeded/{i}'
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.rs', 'w').write(demo)
        shutil.copy(here + '/hv.rs', d)
        shutil.copy(f'{here}/{sh}', d + '/demo.sh')
        if target:
            open(d + '/target', 'w').write(target + '\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['what']}, open(d + '/meta.json', 'w'), indent=1)
        r = run(['bash', d + '/demo.sh'], wt)
        if r.returncode != 0:
            fail('demo fails on the unchanged tree:\n' + r.stdout[-3000:]); continue
        ok = True
        for f, old, new in edits:
            p = f'{wt}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                fail(f'{f}: {s.count(old)} matches of:\n{old}'); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        open(d + '/patch.diff', 'w').write(run('git diff', wt).stdout)
        r = run(['bash', d + '/demo.sh'], wt)
        if r.returncode == 0:
            fail('demo passes with the change'); continue
        last = ' '.join(r.stdout.strip().splitlines()[-2:])[:160]
        if sh != 'demo-builds.sh' and 'error' in r.stdout and 'could not compile' in r.stdout:
            fail('does not compile:\n' + r.stdout[-3000:]); continue
        r = run('cargo test --workspace --all-features --offline -q 2>&1 && cargo build --no-default-features --offline -q', wt)
        if r.returncode != 0:
            fail('tests fail:\n' + r.stdout[-1500:]); continue
        print(f'{i}: ok ({last})')
    shutil.rmtree(wt)
    print('bad:', bad)

main()
