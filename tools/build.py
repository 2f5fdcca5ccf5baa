#!/usr/bin/env python3
"""Builds the explorer of one property from /repo's working tree, by means of an
overlay: build.py PROPERTY DIR. Writes DIR/run.sh."""
import json, os, shutil, subprocess, sys

REPO, H = os.environ.get('VERIF_REPO', '/repo'), '/verif/harness'  # VERIF_REPO: for development
VMC = set('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C23 C27 C30'.split())


def overlay(pairs):
    """pairs: (directory of the harness, virtual directory under /repo)"""
    rep = {}
    for src, dst in pairs:
        for f in sorted(os.listdir(f'{H}/{src}')):
            if f.endswith('.go'):
                rep[f'{REPO}/{dst}/{f}'] = f'{H}/{src}/{f}'
    return rep


# explorers that run the networked programs
VNET = set('C18 C19 C20 C22 C24 C25 C26 C29 C31'.split())

# explorers that schedule instrumented code
VSCHED = set('C21 C28'.split())

# programs of the repository that a check runs
CLIENT = './cmd/grpc/client'
BINS = {
    'C16': {'data': './data'},
    'C18': {'client': CLIENT, 'multi': './simulations/multi/client'},
    'C19': {'client': CLIENT, 'multi': './simulations/multi/client'},
    'C20': {'server': './cmd/grpc/server'},
    'C22': {'web': './cmd/grpc/client/web'},
    'C25': {'interactive': './cmd/grpc/client/interactive'},
    'C26': {'simul': './simulations', 'mserver': './simulations/multi/server', 'multi': './simulations/multi/client'},
    'C29': {'client': CLIENT, 'multi': './simulations/multi/client', 'server': './cmd/grpc/server', 'mserver': './simulations/multi/server'},
    'C31': {'client': CLIENT, 'web': './cmd/grpc/client/web', 'interactive': './cmd/grpc/client/interactive'},
    'C24': {'client': CLIENT, 'server': './cmd/grpc/server'},
}

BASE = [('detrand', 'aa_verif/detrand'), ('gate', 'aa_verif/gate'), ('sched', 'aa_verif/sched'), ('eng', 'zz_verif/eng')]


def main():
    prop, out = sys.argv[1], sys.argv[2]
    for f in ('go.mod', 'go.sum'):
        shutil.copy(f'{REPO}/{f}', f'{out}/{f}')

    def instrument(mode, *args):
        os.mkdir(f'{out}/{mode}')
        p = subprocess.run(['go', 'run', f'{H}/instr/main.go', mode, REPO, f'{out}/{mode}', *args], cwd=f'{H}/instr', capture_output=True, text=True)
        if p.returncode:
            print(p.stderr)
            sys.exit(1)
        return json.loads(p.stdout)

    def go(args, rep, name):
        with open(f'{out}/{name}.json', 'w') as fh:
            json.dump({'Replace': rep}, fh)
        cmd = ['go'] + args[:1] + ['-overlay', f'{out}/{name}.json', '-modfile', f'{out}/go.mod'] + args[1:]
        return subprocess.run(cmd, cwd=REPO, capture_output=True, text=True)

    for name, pkg in BINS.get(prop, {}).items():
        rep = {}
        if name in ('web', 'interactive'):
            rep[f'{REPO}/cmd/grpc/client/{name}/zz_verif.go'] = f'{H}/web/conf.go.txt'
        if prop == 'C20':
            rep = {**instrument('gate'), **overlay(BASE)}
        p = go(['build', '-o', f'{out}/{name}', pkg], rep, name)
        if p.returncode and rep and go(['build', '-o', f'{out}/unused', pkg], {}, name).returncode == 0:
            continue  # an internal name has changed; the explorer says so
        if p.returncode:
            print(p.stdout + p.stderr)
            return 1

    run = None
    if prop in VMC or prop in VNET:
        parts = BASE + [('vmc', 'zz_verif/vmc')] + ([('vnet', 'zz_verif/vmc')] if prop in VNET else [])
        p = go(['build', '-o', f'{out}/vmc', './zz_verif/vmc'], overlay(parts), 'ov')
        if p.returncode:
            print(p.stdout + p.stderr)
            return 1
        run = f'exec {out}/vmc {prop}'
    if prop in VSCHED:
        rep = overlay(BASE + [('vmc', 'zz_verif/vmc'), ('vsched', 'zz_verif/vmc')])
        libs = sorted({os.path.relpath(d, REPO) for d, _, fs in os.walk(f'{REPO}/lib') if any(f.endswith('.go') for f in fs)})
        libs = [l for l in libs if l not in ('lib/proto', 'lib/monitor')]
        args = ['build', '-ldflags', '-checklinkname=0', '-o', f'{out}/vmc', './zz_verif/vmc']
        p = go(args, {**instrument('points', *libs), **rep}, 'ov')
        if p.returncode:
            p2 = go(args, rep, 'ov')  # the explorer says that there are no points
            if p2.returncode:
                print(p2.stdout + p2.stderr)
                return 1
            print(p.stdout + p.stderr)
        run = f'exec {out}/vmc {prop}'
    if run is None:
        print('unknown property', prop)
        return 1
    with open(f'{out}/run.sh', 'w') as fh:
        fh.write(f'export VERIF_BIN={out}\n{run}\n')
    return 0


sys.exit(main())
