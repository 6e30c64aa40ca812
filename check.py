#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current tree.

Exit 0: every obligation under contract for this property was discharged (or
was outside the verifier's reach and the bounded stand-in found nothing).
Exit 1 with a VIOLATION line: an obligation failed, or a concrete failing input
was found."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'tools'))
from verusrun import SpecRun  # noqa: E402
import plan  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()


def limit_mem():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))


class Search:
    def __init__(self, work):
        self.work = work
        self.err = None
        self.bin = None
        self.target = os.path.join(work, 'target')

    def build(self):
        try:
            env = dict(os.environ, CARGO_TARGET_DIR=self.target, CARGO_NET_OFFLINE='true')
            # the crate is built from a copy so that Cargo.lock and the path
            # dependency of the committed one stay as they are
            src = os.path.join(self.work, 'search')
            shutil.copytree(os.path.join(HERE, 'search'), src, ignore=shutil.ignore_patterns('target'))
            if REPO != '/repo':
                p = os.path.join(src, 'Cargo.toml')
                t = open(p).read().replace('"/repo"', '"%s"' % REPO)
                open(p, 'w').write(t)
            p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=src, env=env,
                               capture_output=True, text=True, timeout=400)
            if p.returncode != 0:
                self.err = 'the search harness does not build: ' + p.stderr[-1500:]
                return
            self.bin = os.path.join(self.target, 'debug', 'search')
        except Exception as ex:
            self.err = 'the search harness does not build: %r' % ex

    def run(self, prop, secs, seed):
        """-> dict (with 'failure' if a concrete case fails)"""
        slots = os.path.join(self.work, 'slots')
        try:
            p = subprocess.Popen([self.bin, prop, '--seconds', str(secs), '--seed', str(seed), '--slots', slots],
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=limit_mem)
            try:
                out, err = p.communicate(timeout=secs + 60)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
                rc = -9
        except Exception as ex:
            return {'error': repr(ex)}
        d = None
        for l in out.split('\n'):
            try:
                d = json.loads(l)
            except ValueError:
                pass
        if d is not None:
            return d
        # the process died: find the case that kills it
        try:
            cases = [l.strip() for l in open(slots).read().split('\n') if l.startswith('case:')]
        except OSError:
            cases = []
        for c in cases:
            w = c.split()
            case = 'case: %s %s %s' % (prop, w[1], w[2])
            r = self.replay(case, 60)
            if r[0] != 0:
                return {'tests': 1, 'evaluations': 1,
                        'failure': {'test': w[1], 'message': 'the process dies (%s)' % r[1][-200:], 'case': case, 'log': r[1]}}
        return {'error': 'search ended with code %s and no result: %s' % (rc, err[-300:])}

    def replay(self, case, limit):
        f = os.path.join(self.work, 'case.txt')
        with open(f, 'w') as h:
            h.write(case + '\n')
        try:
            p = subprocess.run([self.bin, '--replay', f, '--echo', '1'], capture_output=True, text=True,
                               timeout=limit, preexec_fn=limit_mem)
            return p.returncode, p.stdout[-4000:] + p.stderr[-500:]
        except subprocess.TimeoutExpired as ex:
            return 124, 'the case does not end within %d s' % limit


def main():
    prop = sys.argv[1]
    P = plan.PROPS[prop]
    quick = TIER != 'thorough'
    work = tempfile.mkdtemp(prefix='vc_%s_' % prop)
    try:
        rc = decide(prop, P, quick, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(prop, P, quick, work):
    S = Search(work)
    b = threading.Thread(target=S.build)
    b.start()
    runs = []
    for sp in P['specs']:
        r = SpecRun(REPO, os.path.join(HERE, 'specs', sp + '.vspec'), work)
        r.run(limit=330 if quick else 900, retries=2)
        runs.append(r)
    extra = []
    for fn in P.get('extra', []):
        extra.append(fn(REPO, work, quick))
    b.join()

    def concerns(ps):
        return prop in ps or any(t in ps for t in P.get('tags', []))

    mine = {}        # (spec, uid) -> state
    detail = []
    for r in runs:
        if r.dead:
            for u, ps in r.props.items():
                if concerns(ps):
                    mine[(r.name, u)] = ('undecided', r.dead)
            detail.append('%s: not decided: %s' % (r.name, r.dead))
            continue
        for u, ps in r.props.items():
            if not concerns(ps):
                continue
            if u in r.failed:
                mine[(r.name, u)] = ('failed', r.failed[u])
            elif u in r.undecided:
                mine[(r.name, u)] = ('undecided', r.undecided[u])
            elif u in r.verified:
                mine[(r.name, u)] = ('verified', None)
            else:
                mine[(r.name, u)] = ('undecided', 'no result')
    failed = {k: v[1] for k, v in mine.items() if v[0] == 'failed'}
    undec = {k: v[1] for k, v in mine.items() if v[0] == 'undecided'}
    for x in extra:
        for u, m in x.get('failed', {}).items():
            failed[(x['name'], u)] = [m]
        for u, m in x.get('undecided', {}).items():
            undec[(x['name'], u)] = m

    # the concrete search: a failing input for a failed obligation, and the
    # bounded stand-in for what is not under contract
    res = {}
    if S.bin:
        secs = P.get('quick_s', 40) if quick else 420
        if failed or undec:
            secs = max(secs, 75)
        res = S.run(prop, secs, SEED)
        if not quick and not res.get('failure') and 'error' not in res:
            r2 = S.run(prop, 120, SEED + 1000)
            if r2.get('failure'):
                res = r2
            elif 'error' not in r2:
                for k in ('evaluations', 'distinct_nontrivial'):
                    res[k] = res.get(k, 0) + r2.get(k, 0)
    probes = None
    if not quick:
        probes = {}
        for r in runs:
            if not r.dead:
                p = r.probe(400)
                probes[r.name] = ({'functions_probed': p[1], 'vacuous': p[0]} if p else 'no result')
    vac = vacuity(work, P['specs'])

    rc = 0
    replay = os.path.join(HERE, 'evidence', '%s.replay.txt' % prop)
    fl = res.get('failure')
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.remove(replay)
    if fl or failed:
        rc = 1
        with open(replay, 'w') as f:
            f.write('property %s: %s\n\n' % (prop, P['title']))
            if fl:
                f.write('concrete failing input (search/src, test %s):\n%s\n%s\n\n' % (fl['test'], fl['message'], fl.get('log', '')))
                f.write(fl['case'] + '\n')
                f.write('\nreplay: cd %s/search && cargo run --offline -- --replay %s\n\n' % (HERE, replay))
            for (sp, u), ms in failed.items():
                f.write('failed obligation: %s (contract in specs/%s.vspec)\n' % (u, sp))
                for m in ms[:4]:
                    f.write(m + '\n')
                f.write('\n')
        print('property %s' % prop)
        for (sp, u), ms in failed.items():
            print('failed obligation: %s: %s' % (u, ms[0].split('\n')[0]))
        if fl:
            print('failing input: %s: %s' % (fl['test'], fl['message'][:400]))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))

    ver = [k for k, v in mine.items() if v[0] == 'verified']
    lem = sum(r.lemmas for r in runs if not r.dead)
    xo = sum(x.get('obligations', 0) for x in extra)
    xd = sum(x.get('discharged', 0) for x in extra)
    ev = {
        'property': prop, 'tier': 'quick' if quick else 'thorough', 'seed': SEED, 'level': P['level'],
        'coverage': {
            'obligations': len(mine) + lem + xo,
            'discharged': len(ver) + lem + xd,
            'obligations_are': 'one per function under contract for this property (its whole body, all paths and '
                               'loop iterations) plus one per supporting lemma; each is discharged by Z3 through Verus'
                               + ('; plus the extra checks listed under extra_checks' if extra else ''),
            'checker_cmd': '; '.join(r.cmd for r in runs),
            'back_end': 'Verus 0.2026.09.13 / Z3',
            'solver_ms': sum(r.smt_ms for r in runs),
            'functions_under_contract': sorted('%s (%s)' % (u, sp) for sp, u in mine),
            'verified': len(ver),
            'lemmas': lem,
            'failed': sorted('%s: %s' % (u, v[0].split('\n')[0]) for (sp, u), v in failed.items()),
            'undecided': sorted('%s: %s' % (u, v) for (sp, u), v in undec.items()),
            'notes': detail,
            'trusted_base': plan.TRUSTED + P.get('trusted', []),
            'assumed_items_in_text': {r.name: scan(r.text) for r in runs},
            'vacuity_probe': vac,
            'vacuity_probes_per_function': probes,
            'extra_checks': [{k: v for k, v in x.items()} for x in extra],
            'bounded_stand_in': {
                'what': 'random histories against a std model (not a proof; never counted above)',
                'covers': P.get('standin', 'the functions of this property that are not under contract'),
                'evaluations': res.get('evaluations', 0),
                'distinct_nontrivial': res.get('distinct_nontrivial', 0),
                'seconds': res.get('seconds', 0),
                'tests': res.get('names', []),
                'sample': res.get('sample', ''),
                'error': S.err or res.get('error'),
            },
        },
        'assumptions': plan.TRUSTED + P.get('trusted', []),
        'wall_s': round(time.time() - T0, 1),
        'violations': rc,
    }
    if P['level'] != 'proof':
        ev['coverage'].update({
            'evaluations': res.get('evaluations', 0), 'distinct_nontrivial': res.get('distinct_nontrivial', 0),
            'rule': 'random choice streams; non-trivial: at least two logged steps', 'samples': [res.get('sample', '')],
            'explanation': P.get('explanation', '')})
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d/%d functions verified, %d lemmas, %d undecided, %d failed; search: %s cases; %.0f s' % (
        prop, len(ver), len(mine), lem, len(undec), len(failed), res.get('evaluations', 0), time.time() - T0))
    for k, v in undec.items():
        print('  undecided %s: %s' % (k[1], v[:200]))
    if S.err:
        print('  ' + S.err[-600:])
    return rc


def scan(text):
    """what the verified text assumes without proof"""
    r = {}
    for w in ('external_body', 'assume_specification', 'assume\\(', 'admit\\(', 'broadcast axiom', 'uninterp', 'exec_allows_no_decreases_clause'):
        r[w.replace('\\(', '')] = len(re.findall(r'\b' + w, text))
    return r


def vacuity(work, specs):
    """the assumptions of the prelude must not prove false"""
    from verusrun import run_verus, blocks
    pre = {}
    if any(not x.endswith('cost') for x in specs):
        pre['vac'] = (('header.inc', 'order.inc'), '''
proof fn vacuity_probe<K: Ord, V>(k: K) requires lawful::<K>(), ensures false
{ broadcast use axiom_bor_refl; reveal(ord_laws); reveal(bor_laws); law_flip(k, k); law_trans(k, k, k); }
''')
    if any(x.endswith('cost') for x in specs):
        pre['vaccost'] = (('cost.inc',), '''
fn vacuity_probe(x: &mut Arc<usize>, y: Arc<usize>, Tracked(cc): Tracked<&mut Cost>) ensures false
{ let z = y.vclone(Tracked(&mut *cc)); let r = arc_make_mut(x, Tracked(&mut *cc)); let v = vcopy(&y, Tracked(&mut *cc));
  let u = arc_try_unwrap(z); let g = arc_get_mut(x); }
''')
    res = []
    for name, (files, probe) in pre.items():
        t = ''
        for f in files:
            t += open(os.path.join(HERE, 'specs', f)).read().replace('#raw\n', '')
        t += probe + '} fn main() {}\n'
        p = os.path.join(work, name + '.rs')
        open(p, 'w').write(t)
        d, err, _, _ = run_verus(p, ['--verify-root', '--verify-function', 'vacuity_probe'], 120)
        if d is None:
            res.append('no result')
            continue
        n = [b for b in blocks(err) if 'postcondition' in b[0]]
        res.append('ensures false is refuted, as it must be' if n else 'NOT refuted: ' + err[-300:])
    return '; '.join(res)


if __name__ == '__main__':
    main()
