"""run Verus on a freshly extracted file and say, per function, what happened"""
import json
import os
import re
import subprocess
import time
from extract import Gen, Lost

VERR = re.compile(r'^error: (.*)$')
LOC = re.compile(r'^\s*--> ([^:\s]+):(\d+):(\d+)')


def run_verus(path, extra, limit):
    t0 = time.time()
    cmd = ['verus', os.path.basename(path), '--num-threads', '8', '--output-json', '--time-expanded',
           '--triggers-mode', 'silent', '--no-report-long-running'] + extra
    try:
        p = subprocess.run(cmd, cwd=os.path.dirname(path), capture_output=True, text=True, timeout=limit)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        return None, 'timeout after %d s' % limit, cmd, time.time() - t0
    try:
        d = json.loads(out[out.index('{'):])
    except ValueError:
        d = {}
    return d, err, cmd, time.time() - t0


def blocks(err):
    """-> [(message, [line numbers in file order], text)] for every error"""
    res = []
    cur = None
    for l in err.split('\n'):
        m = re.match(r'^(error|warning|note)(\[\w+\])?: (.*)$', l)
        if m:
            cur = None
            if m.group(1) == 'error' and not m.group(3).startswith('aborting due'):
                cur = [m.group(3), [], [l]]
                res.append(cur)
            continue
        if cur is not None:
            cur[2].append(l)
            m = LOC.match(l)
            if m:
                cur[1].append(int(m.group(2)))
            else:
                m = re.match(r'^\s*(\d+)\s*[|/]', l)
                if m:
                    cur[1].append(int(m.group(1)))
    return [(a, b, '\n'.join(c)) for a, b, c in res]


class SpecRun:
    """the state of one .vspec against the current tree"""

    def __init__(self, repo, spec, work, verbose=False):
        self.repo, self.spec, self.work = repo, spec, work
        self.name = os.path.basename(spec)[:-6]
        self.verified = {}      # uid -> ms
        self.failed = {}        # uid -> [messages]
        self.undecided = {}     # uid -> why
        self.lemma_failed = []  # failures outside any function (never a violation)
        self.props = {}
        self.dead = None        # the file as a whole could not be decided
        self.units = 0
        self.lemmas = 0
        self.smt_ms = 0
        self.wall = 0
        self.cmd = ''
        self.fnsrc = {}
        self.vacuous = []
        self.text = ''

    def gen(self, skip, probe=False):
        try:
            return Gen(self.repo, self.spec, skip=skip, probe=probe)
        except Lost as ex:
            self.dead = str(ex)
        except Exception as ex:
            self.dead = 'extraction failed: %r' % ex
        return None

    def run(self, limit=600, retries=2):
        t0 = time.time()
        skip = {}
        path = os.path.join(self.work, self.name + '.rs')
        g = None
        for _ in range(12):
            g = self.gen(skip)
            if g is None:
                return self
            skip = dict(g.skip)
            for u, w in g.why.items():
                self.undecided.setdefault(u, w)
            self.props = g.props
            self.text = g.text()
            with open(path, 'w') as f:
                f.write(self.text)
            left = limit - (time.time() - t0)
            if left < 20:
                self.dead = 'out of time'
                return self
            d, err, cmd, _w = run_verus(path, [], left)
            self.cmd = ' '.join(cmd)
            if d is None:
                self.dead = err
                return self
            vr = d.get('verification-results', {})
            br = self.breakdown(d)
            if br or 'verified' in vr and not vr.get('encountered-vir-error') and (
                    vr.get('verified', 0) + vr.get('errors', 0) > 0):
                break
            # a compile error: set aside the functions it points into
            new = False
            bl = blocks(err)
            for msg, lines, txt in bl:
                us = [g.where(n) for n in lines[:1]] or [None]
                u = us[0]
                if u is None:
                    us = [g.where(n) for n in lines]
                    u = next((x for x in us if x), None)
                if u is None:
                    continue
                if skip.get(u) == 'gone':
                    continue
                if u in skip and skip[u] == 'body':
                    if (u, 'second') in skip:
                        continue
                    skip[u] = 'gone'
                else:
                    skip[u] = 'body'
                self.undecided[u] = 'outside the verifier\'s reach: ' + msg
                new = True
            if not new:
                self.dead = 'the extracted file does not compile: ' + '; '.join(b[0] for b in bl[:3])[:400]
                self.log = err
                return self
        else:
            self.dead = 'the extracted file does not compile'
            return self
        self.log = err
        self.fnsrc = {u: p for _, _, u, p in g.map}
        ok = self.take(g, d, err)
        # an unlucky solver run is retried with other seeds and more resources
        n = 0
        while self.failed and n < retries and time.time() - t0 < limit - 30:
            n += 1
            left = limit - (time.time() - t0)
            d, err2, cmd, _w = run_verus(path, ['--rlimit', str(20 * n), '--smt-option', 'smt.random_seed=%d' % (7 * n)], min(left, 200))
            if d is None:
                break
            before = set(self.failed)
            f2, l2 = self.fails(g, err2)
            br = self.breakdown(d)
            if not br:
                break
            for u in before:
                if u not in f2:
                    self.failed.pop(u)
                    self.verified[u] = None
            self.lemma_failed = [x for x in self.lemma_failed if x in l2]
            self.log += err2
        # a proof that ran out of resources is not a refutation
        for u in list(self.failed):
            if all('rlimit' in m or 'Resource limit' in m for m in self.failed[u]):
                self.undecided[u] = 'the solver ran out of resources'
                self.failed.pop(u)
        # soft anchors: hints that no longer fit the text
        for u, p in g.soft_missed:
            if u in self.failed:
                self.undecided[u] = 'a proof hint no longer fits the text (%s); ' % p + self.failed.pop(u)[0]
        self.wall = time.time() - t0
        self.g = g
        return self

    def breakdown(self, d):
        r = []
        for m in d.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            r += m.get('function-breakdown', [])
        return r

    def fails(self, g, err):
        f, lem = {}, []
        for msg, lines, txt in blocks(err):
            u = g.where(lines[0]) if lines else None
            if u is None:
                # the span may start at a contract of another item: use any line inside a function
                u = next((g.where(n) for n in lines if g.where(n)), None)
            if u is None:
                lem.append(msg)
            else:
                f.setdefault(u, []).append(msg + '\n' + txt)
        return f, lem

    def take(self, g, d, err):
        self.failed, self.lemma_failed = self.fails(g, err)
        br = self.breakdown(d)
        self.smt_ms = d.get('times-ms', {}).get('smt', {}).get('total', 0)
        vr = d.get('verification-results', {})
        self.units = vr.get('verified', 0) + vr.get('errors', 0)
        for u in g.fns:
            if u not in self.failed:
                self.verified[u] = None
        self.lemmas = sum(1 for b in br if b.get('mode:') == 'proof' and b.get('success'))
        self.times = {b['function']: b['time'] for b in br}
        return True

    def probe(self, limit):
        """assert(false) at the entry of every function must be refuted"""
        g = self.gen({u: 'body' for u in self.undecided}, probe=True)
        if g is None:
            return None
        path = os.path.join(self.work, self.name + '_probe.rs')
        with open(path, 'w') as f:
            f.write(g.text())
        d, err, cmd, _ = run_verus(path, ['--multiple-errors', '0'], limit)
        if d is None or not self.breakdown(d):
            return None
        f, _l = self.fails(g, err)
        return [u for u in g.fns if u not in f], len(g.fns)
