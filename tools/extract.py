"""extract.py: build a Verus file from the functions in /repo's sources and the
contracts in /verif/specs/*.vspec.

The executable text of every function is copied from /repo byte for byte; the
only changes made to it are the listed ones:
  * attributes, doc comments and visibility are dropped,
  * `?Sized` bounds are dropped (spec equality needs Sized),
  * an `impl Trait for T` method is emitted as an inherent method of T, with
    `Self::Assoc` replaced by the impl's associated type,
  * an `impl Trait for &T` method is emitted as a method of T taking `&self`,
  * textual substitutions named in the .vspec file (`#subst`, `@sub`): calls to
    std functions that Verus has no specification for are redirected to
    `external_body` shims in specs/ that call the std function,
  * an `impl Trait` return type may be replaced by the type behind it (`@ret`),
  * the impl that a `#[derive(Clone)]` stands for is written out (clone each
    field), so that it is verified like any other function,
  * calls of the macro make_set_op_iter! are expanded (`#expand`),
  * a match arm `A | B if g => e` is written as the two arms `A if g => e` and
    `B if g => e`,
  * a function defined inside another one is lifted out of it (key `outer>inner`),
  * a `K: Ord` bound is added to some methods that do not need it themselves
    (the contract speaks of sorted keys),
  * ghost text (contracts, invariants, proof blocks) is spliced in.
Everything else that differs from /repo is a bug of this tool.
"""
import re
import sys
import os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rsx import Src, sq, base_name, lex, match_brackets  # noqa


def split_commas(toks, a, b):
    """-> list of (start, end) token ranges separated by top-level commas"""
    out, d, st = [], 0, a
    for i in range(a, b):
        x = toks[i].s
        if x in '([{<' and len(x) == 1:
            d += 1
        elif x in ')]}>' and len(x) == 1:
            d -= 1
        elif x == ',' and d == 0:
            out.append((st, i))
            st = i + 1
    if st < b:
        out.append((st, b))
    return out


def with_derives(src):
    """the source with the impl behind every `#[derive(Clone)]` on a struct
    written out (as rustc does it: clone each field) at its end"""
    text = src.text
    toks = lex(text)
    mt = match_brackets(toks)
    out = []
    for i in range(len(toks) - 3):
        if toks[i].s != '#' or toks[i + 1].s != '[' or toks[i + 2].s != 'derive':
            continue
        e = mt[i + 1]
        if not any(t.s == 'Clone' for t in toks[i + 3:e]) or any(t.s == 'Copy' for t in toks[i + 3:e]):
            continue
        j = e + 1
        while toks[j].s != 'struct':
            if toks[j].s == '#':
                j = mt[j + 1] + 1
            elif toks[j].s == 'pub':
                j = mt[j + 1] + 1 if toks[j + 1].s == '(' else j + 1
            else:
                break
        if toks[j].s != 'struct':
            continue
        name = toks[j + 1].s
        k = j + 2
        params, args = [], []
        if toks[k].s == '<':
            d, q = 1, k + 1
            while d:
                d += {'<': 1, '>': -1}.get(toks[q].s, 0)
                q += 1
            for a, b in split_commas(toks, k + 1, q - 1):
                w = text[toks[a].a:toks[b - 1].b].split('=')[0].strip()
                if toks[a].s == 'const':
                    params.append(w)
                    args.append(toks[a + 1].s)
                elif toks[a].k == 'life':
                    params.append(w)
                    args.append(toks[a].s)
                else:
                    params.append(w + (' + Clone' if ':' in w else ': Clone'))
                    args.append(toks[a].s)
            k = q
        while toks[k].s not in ('{', '(', ';'):
            k += 1
        if toks[k].s == ';':
            continue
        body = []
        for n, (a, b) in enumerate(split_commas(toks, k + 1, mt[k])):
            while toks[a].s == '#':
                a = mt[a + 1] + 1
            if toks[a].s == 'pub':
                a = mt[a + 1] + 1 if toks[a + 1].s == '(' else a + 1
            f = toks[a].s if toks[k].s == '{' else str(n)
            body.append('%s: self.%s.clone()' % (f, f))
        ga = '<%s>' % ', '.join(args) if args else ''
        gp = '<%s>' % ', '.join(params) if params else ''
        out.append('impl%s Clone for %s%s {\n    fn clone(&self) -> Self {\n        %s { %s }\n    }\n}\n'
                   % (gp, name, ga, name, ', '.join(body)))
    if not out:
        return src
    return Src(src.path, text + '\n' + '\n'.join(out))


class Lost(Exception):
    """an anchor the contracts rely on is not there (never a violation)"""


class FnSpec:
    def __init__(self, key, ret, flags):
        self.key, self.ret, self.flags = key, ret, flags
        self.contract = ''
        self.begin = ''
        self.tail = ''
        self.loops = {}
        self.bodies = {}
        self.pasts = {}
        self.bodyends = {}
        self.closures = {}
        self.before = []
        self.after = []
        self.subs = []
        self.opaque = None
        self.impl = ''
        self.methods = {}

    @property
    def uid(self):
        n = self.flags.get('nth', '0')
        return self.key + ('#' + n if n != '0' else '')


def parse_spec(path, seen=None):
    """-> list of ('raw', text) | ('source', p) | ('item', kind, name) | ('fn', FnSpec) | ('subst', a, b)"""
    out = []
    cur = None        # function spec or None
    sect = None
    buf = []
    base = os.path.dirname(path)

    def flush():
        nonlocal buf
        t = '\n'.join(buf)
        buf = []
        if cur is None:
            if t.strip():
                out.append(('raw', t))
            return
        if sect == 'contract':
            cur.contract += t
        elif sect == 'begin':
            cur.begin += t
        elif sect == 'tail':
            cur.tail += t
        elif sect == 'impl':
            cur.impl += t
        elif isinstance(sect, tuple):
            if sect[0] == 'loop':
                cur.loops[sect[1]] = t
            elif sect[0] == 'method':
                cur.methods[sect[1]] = (sect[2], t)
            elif sect[0] == 'body':
                cur.bodies[sect[1]] = t
            elif sect[0] == 'past':
                cur.pasts[sect[1]] = t
            elif sect[0] == 'bodyend':
                cur.bodyends[sect[1]] = t
            elif sect[0] == 'closure':
                cur.closures[sect[1]] = (sect[2], t)
            elif sect[0] in ('before', 'after'):
                getattr(cur, sect[0]).append((sect[1], t))

    for ln in open(path):
        ln = ln.rstrip('\n')
        if ln.startswith('#') and not ln.startswith('#[') and not ln.startswith('#!'):
            flush()
            cur = None
            sect = None
            w = ln[1:].split()
            if w[0] == 'raw':
                pass
            elif w[0] == 'end':
                pass
            elif w[0] == 'source':
                out.append(('source', w[1]))
            elif w[0] == 'expand':
                # #expand MACRO FILE: expand the current source's calls of FILE's macro
                out.append(('expand', w[1], w[2]))
            elif w[0] == 'item':
                out.append(('item', w[1], w[2], set(w[3:])))
            elif w[0] == 'prop':
                out.append(('prop', w[1:]))
            elif w[0] == 'ghost':
                # #ghost PARAM: every later #fn without +noghost takes this ghost
                # parameter last, and every call of one of them passes it on
                out.append(('ghost', ln[6:].strip()))
            elif w[0] == 'calls':
                # #calls NAME...: shims that take the ghost parameter too
                out.append(('calls', w[1:]))
            elif w[0] == 'include':
                out.extend(parse_spec(os.path.join(base, w[1])))
            elif w[0] == 'subst':
                m = re.match(r'#subst\s+(\S+)\s+=>\s+(\S+)', ln)
                out.append(('subst', m.group(1), m.group(2)))
            elif w[0] == 'fn':
                m = re.match(r'#fn\s+(.*?)(?:\s+->\s+(\w+))?((?:\s+\+[\w=:,+-]+)*)\s*$', ln)
                if ' ' in m.group(1):
                    raise ValueError('bad directive ' + ln)
                cur = FnSpec(m.group(1), m.group(2), dict(
                    (f[1:].split('=') + ['1'])[:2] for f in m.group(3).split()))
                out.append(('fn', cur))
                sect = 'contract'
            elif w[0] == 'const':
                # #const NAME -> impl header: an associated constant, as a function NAME_()
                m = re.match(r'#const\s+(\w+)\s*->\s*(.*)$', ln)
                cur = FnSpec(m.group(1), m.group(2), {})
                out.append(('const', cur))
                sect = 'contract'
            elif w[0] == 'trait':
                cur = FnSpec(w[1], None, {})
                out.append(('trait', cur))
                sect = 'contract'
            elif w[0] == '#':
                pass
            else:
                raise ValueError('bad directive ' + ln)
            continue
        if cur is not None and ln.startswith('@'):
            flush()
            w = ln[1:].split()
            if w[0] in ('begin', 'tail', 'impl'):
                sect = w[0]
            elif w[0] == 'loop':
                sect = ('loop', int(w[1]))
            elif w[0] == 'method':
                sect = ('method', w[1], w[3])
            elif w[0] in ('body', 'past', 'bodyend'):
                sect = (w[0], int(w[1]))
            elif w[0] == 'closure':
                m = re.match(r'@closure\s+(\d+)\s*(.*)$', ln)
                sect = ('closure', int(m.group(1)), m.group(2).strip())
            elif w[0] in ('before', 'after'):
                sect = (w[0], re.match(r'@\w+\s+(.*)$', ln).group(1).strip())
            elif w[0] == 'sub':
                m = re.match(r'@sub\s+(.+?)\s+=>\s+(.*)$', ln)
                cur.subs.append((m.group(1), m.group(2)))
                sect = None
            elif w[0] == 'ret':
                cur.opaque = ln[4:].strip()
                sect = 'contract'
            else:
                raise ValueError('bad directive ' + ln)
            continue
        buf.append(ln)
    flush()
    return out


SIZED = re.compile(r'\s*\+\s*\?Sized|\?Sized\s*\+\s*|:\s*\?Sized')


def nosized(s):
    return SIZED.sub('', s)


def strip_comments(s):
    """remove comments, keep line structure"""
    out = []
    last = 0
    toks = lex(s)
    pos = 0
    for t in toks:
        gap = s[pos:t.a]
        out.append(blank(gap))
        out.append(s[t.a:t.b])
        pos = t.b
    out.append(blank(s[pos:]))
    return ''.join(out)


def blank(gap):
    if gap.strip() == '':
        return gap
    # only comments/blank here
    r = ''.join('\n' for c in gap if c == '\n')
    return r if r else ' '


def split_guarded(body):
    """`A | B if g => e` becomes two arms (Verus takes no or-pattern with a guard)"""
    while True:
        toks = lex(body)
        mt = match_brackets(toks)
        hit = None
        for i, t in enumerate(toks):
            if t.k != 'id' or t.s != 'match':
                continue
            j = i + 1
            while toks[j].s != '{':
                j = mt[j] + 1 if toks[j].s in ('(', '[') else j + 1
            end = mt[j]
            a = j + 1
            while a < end:
                bars, g, q = [], None, a
                while toks[q].s != '=>':
                    if toks[q].s == '|' and g is None and q > a:
                        bars.append(q)
                    if toks[q].s == 'if' and g is None:
                        g = q
                    q = mt[q] + 1 if toks[q].s in ('(', '[', '{') else q + 1
                e = q + 1
                if toks[e].s == '{':
                    e = mt[e] + 1
                else:
                    while e < end and toks[e].s != ',':
                        e = mt[e] + 1 if toks[e].s in ('(', '[', '{') else e + 1
                if e < end and toks[e].s == ',':
                    e += 1
                if g is not None and hit is None:
                    if bars:
                        hit = (a, bars, g, e, end)
                    elif any(t.s == '|' for t in toks[a:g]):
                        hit = (a, None, g, e, end)
                a = e
        if hit is None:
            return body
        a, bars, g, e, end = hit
        tail = body[toks[g].a:toks[e - 1].b]
        if toks[e - 1].s != ',':
            tail += ','
        if bars is None:
            # one nested `A | B`: an arm with A, and one with the rest
            b = next(x for x in range(a, g) if toks[x].s == '|')
            lo = hi = b
            while toks[lo - 1].s not in ('(', '[', '{', ',', ':'):
                lo = mt[lo - 1] if toks[lo - 1].s in (')', ']', '}') else lo - 1
            while toks[hi].s not in (')', ']', '}', ','):
                hi = mt[hi] + 1 if toks[hi].s in ('(', '[', '{') else hi + 1
            pre, post = body[toks[a].a:toks[lo].a], body[toks[hi - 1].b:toks[g - 1].b]
            arms = [pre + body[toks[x].a:toks[y - 1].b] + post + ' ' + tail for x, y in ((lo, b), (b + 1, hi))]
            body = body[:toks[a].a] + '\n'.join(arms) + body[toks[e - 1].b:]
            continue
        cuts = [a] + [b + 1 for b in bars]
        ends = bars + [g]
        arms = [body[toks[x].a:toks[y - 1].b] + ' ' + tail for x, y in zip(cuts, ends)]
        body = body[:toks[a].a] + '\n'.join(arms) + body[toks[e - 1].b:]


def stmts(toks, mt, a, b):
    """split tokens a..b (inside a block) into statements; yields (i, j, has_semi)"""
    i = a
    res = []
    while i < b:
        st = i
        while toks[i].s == '#' and toks[i + 1].s == '[':
            i = mt[i + 1] + 1
        lab = i
        if toks[i].k == 'life' and toks[i + 1].s == ':':
            i += 2
        s = toks[i].s
        if s in ('if', 'match', 'while', 'for', 'loop', '{', 'unsafe'):
            j = i
            while True:
                while toks[j].s != '{':
                    j = mt[j] + 1 if toks[j].s in ('(', '[') else j + 1
                j = mt[j] + 1
                if j < b and toks[j].s == 'else':
                    j += 1
                    continue
                break
            if j < b and toks[j].s in ('.', '?'):
                while j < b and toks[j].s != ';':
                    j = mt[j] + 1 if toks[j].s in ('(', '[', '{') else j + 1
                semi = j < b
                j = j + 1 if semi else j
                res.append((st, j, semi))
            else:
                semi = False
                if j < b and toks[j].s == ';':
                    j += 1
                    semi = True
                res.append((st, j, semi or j < b))
            i = j
        else:
            j = i
            while j < b and toks[j].s != ';':
                j = mt[j] + 1 if toks[j].s in ('(', '[', '{') else j + 1
            semi = j < b
            j = j + 1 if semi else j
            res.append((st, j, semi))
            i = j
    return res


class Gen:
    """one generated Verus file"""

    def __init__(self, repo, specpath, skip=None, probe=False):
        # skip: uid -> 'body' (keep the contract, assume it) | 'gone' (drop it)
        self.skip = dict(skip or {})
        self.why = {}
        self.probe = probe
        self.props = {}
        self.curprops = []
        self.repo = repo
        self.lines = []
        self.map = []            # (first_line, last_line, key, source file)
        self.fns = []            # keys emitted
        self.lost = []           # (key, why)
        self.subst = []
        self.src = None
        self.srcs = {}
        self.soft_missed = []
        self.spec = parse_spec(specpath)
        self.ghost = ''
        self.ghostcalls = set()
        for e in self.spec:
            if e[0] == 'calls':
                self.ghostcalls.update(e[1])
            elif e[0] == 'ghost':
                self.ghost = e[1]
            elif e[0] == 'fn' and self.ghost and 'noghost' not in e[1].flags:
                self.ghostcalls.add(e[1].flags.get('name', re.split(r'::|>', e[1].key)[-1]))
        self.ghost = ''
        for e in self.spec:
            self._one(e)

    def emit(self, t):
        self.lines.extend(t.split('\n'))

    def _one(self, e):
        k = e[0]
        if k == 'raw':
            self.emit(e[1])
        elif k == 'source':
            p = os.path.join(self.repo, e[1])
            if p not in self.srcs:
                try:
                    self.srcs[p] = with_derives(Src(p))
                except Exception as ex:
                    self.lost.append((e[1], 'cannot read: %s' % ex))
                    raise Lost(str(ex))
            self.src = self.srcs[p]
            self.subst = []
        elif k == 'expand':
            self.expand(e[1], e[2])
        elif k == 'subst':
            self.subst.append((e[1], e[2]))
        elif k == 'item':
            self.item(e[1], e[2], e[3])
        elif k == 'prop':
            self.curprops = e[1]
        elif k == 'ghost':
            self.ghost = e[1]
        elif k == 'fn':
            self.fn(e[1])
        elif k == 'trait':
            self.trait(e[1])
        elif k == 'const':
            self.const(e[1])

    def expand(self, name, path):
        key = (self.src.path, name)
        if key not in self.srcs:
            try:
                d = strip_comments(open(os.path.join(self.repo, path)).read())
                t = expand_macro(strip_comments(self.src.text), name, d)
            except Exception as ex:
                self.lost.append(('macro ' + name, str(ex)))
                raise Lost('macro %s: %s' % (name, ex))
            self.srcs[key] = Src(self.src.path, t)
        self.src = self.srcs[key]

    def const(self, fs):
        uid = 'const ' + fs.key
        self.props[uid] = list(self.curprops)
        m = re.search(r'\bconst\s+%s\s*:\s*([^=;]+?)\s*=\s*([^;]+);' % fs.key, strip_comments(self.src.text))
        if not m:
            raise Lost('const %s not found in %s' % (fs.key, self.src.path))
        a = len(self.lines) + 1
        if not fs.ret.strip():
            # a constant of the module, with its value as an obligation
            self.emit('exec const %s: %s\n%s\n{ %s }' % (fs.key, m.group(1), fs.contract.rstrip(), m.group(2)))
        else:
            self.emit('%s {\nfn %s_() -> (r: %s)\n%s\n{ %s }\n}' % (fs.ret, fs.key, m.group(1), fs.contract.rstrip(), m.group(2)))
        self.map.append((a, len(self.lines), uid, os.path.relpath(self.src.path, self.repo)))
        self.fns.append(uid)

    def trait(self, fs):
        hits = self.src.find_item('trait', fs.key)
        if not hits:
            self.lost.append(('trait ' + fs.key, 'not found'))
            raise Lost('trait %s not found in %s' % (fs.key, self.src.path))
        t = self.clean(self.src.txt(hits[0].a, hits[0].b))
        t = re.sub(r'^\s*pub(\s*\([^)]*\))?\s+', '', t)
        for a, b in fs.subs:
            t, n = re.subn(a, b, t)
            if n == 0:
                raise Lost('substitution anchor %r not found' % a)
        toks = lex(t)
        mt = match_brackets(toks)
        ob = next(i for i, x in enumerate(toks) if x.s == '{')
        ins = [(toks[ob].b, '\n' + fs.begin + '\n')]
        for nm, (ret, c) in fs.methods.items():
            i = next((i for i in range(len(toks) - 1) if toks[i].s == 'fn' and toks[i + 1].s == nm), None)
            if i is None:
                raise Lost('trait method %s not found' % nm)
            j = i + 2
            while toks[j].s != '(':
                j += 1
            j = mt[j] + 1
            if toks[j].s != '->':
                raise Lost('trait method %s: no return type' % nm)
            e = j + 1
            while toks[e].s not in (';', '{', 'where'):
                e = mt[e] + 1 if toks[e].s in ('(', '[') else e + 1
            ins.append((toks[j + 1].a, '(%s: ' % ret))
            if toks[e].s != 'where':
                ins.append((toks[e - 1].b, ')\n' + c + '\n'))
            else:
                ins.append((toks[e - 1].b, ')'))
                while toks[e].s not in (';', '{'):
                    e = mt[e] + 1 if toks[e].s in ('(', '[') else e + 1
                ins.append((toks[e - 1].b, ('' if toks[e - 1].s == ',' else ',') + '\n' + c + '\n'))
        for a, x in sorted(ins, key=lambda y: y[0], reverse=True):
            t = t[:a] + x + t[a:]
        self.emit(t)

    def clean(self, t):
        t = strip_comments(t)
        for a, b in self.subst:
            t = re.sub(a, b, t)
        return nosized(t)

    def item(self, kind, name, flags):
        hits = self.src.find_item(kind, name)
        if kind != 'macro' and len(hits) > 1:
            hits = hits[:1]
        if not hits:
            self.lost.append((kind + ' ' + name, 'not found'))
            raise Lost('%s %s not found in %s' % (kind, name, self.src.path))
        it = hits[-1] if kind == 'macro' else hits[0]
        t = self.src.txt(it.a, it.b)
        t = self.clean(t)
        if kind == 'struct':
            t = re.sub(r'\bpub(\s*\([^)]*\))?\s+', '', t)
            # attributes on fields
            t = re.sub(r'#\[[^\]]*\]', '', t)
        if kind in ('enum', 'const', 'trait', 'type'):
            t = re.sub(r'\bpub(\s*\([^)]*\))?\s+', '', t)
        for f in sorted(flags):
            if f.startswith('+attr='):
                self.emit('#[' + f[6:] + ']')
        self.emit(t)

    def fn(self, fs):
        uid = fs.uid
        self.props[uid] = list(self.curprops)
        if self.skip.get(uid) == 'gone':
            return
        hits = self.src.find_fn(fs.key)
        n = int(fs.flags.get('nth', 0))
        if len(hits) <= n:
            self.lost.append((uid, 'function not found'))
            self.skip[uid] = 'gone'
            self.why[uid] = 'function not found in ' + self.src.path
            return
        it = hits[n]
        if re.search(r'\b(Arc|Rc)::(?!new\b|make_mut\b|clone\b)|\bArcked\b', self.src.txt(it.a, it.b)):
            self.props[uid].append('@sharing')
        text = None
        if 'havoc' in fs.flags:
            # only the signature: the result is left arbitrary (no contract, not counted).
            # Its text must not touch what the meter counts
            t = strip_comments(self.src.txt(it.a, it.b))
            if re.search(r'\b(clone\w*|make_mut|to_owned|to_vec|get_mut|try_unwrap)\b', t):
                self.why[uid] = 'clones, but has no contract'
            else:
                del self.props[uid]
            self.emit(self._fn_text(fs, it, stub=True))
            return
        if self.skip.get(uid) != 'body':
            try:
                text = self._fn_text(fs, it)
            except Exception as ex:
                self.lost.append((uid, str(ex)))
                self.skip[uid] = 'body'
                self.why[uid] = 'the proof does not fit the changed text: %s' % ex
        if text is None:
            try:
                text = self._fn_text(fs, it, stub=True)
            except Exception as ex:
                self.skip[uid] = 'gone'
                self.why[uid] = str(ex)
                return
        a = len(self.lines) + 1
        self.emit(text)
        self.map.append((a, len(self.lines), uid, os.path.relpath(self.src.path, self.repo)))
        if self.skip.get(uid) != 'body':
            self.fns.append(uid)

    def _fn_text(self, fs, it, stub=False):
        S = self.src
        im = it.impl
        body = S.text[S.toks[it.body[0]].a:S.toks[it.body[1]].b]
        off = S.toks[it.body[0]].a
        for nf in reversed(it.nested):
            # functions defined inside this one are lifted out of it
            body = body[:S.toks[nf.a].a - off] + body[S.toks[nf.b - 1].b - off:]
        body = '{ unimplemented!() }' if stub else strip_comments(body)
        for a, b in ([] if stub else fs.subs):
            soft = a.startswith('?')
            body, n = re.subn(a[1:] if soft else a, b, body)
            if n == 0 and not soft:
                raise Lost('substitution anchor %r not found' % a)
        if 'drops' in fs.flags and not stub:
            body = drop_sites(body)
        for a, b in self.subst:
            body = re.sub(a, b, body)
        body = nosized(body)
        ghost = self.ghost if 'noghost' not in fs.flags else ''
        if ghost and not stub:
            g = re.match(r'Tracked\((\w+)\)', ghost).group(1)
            body = ghost_args(body, self.ghostcalls, g)
        if not stub:
            body = self._splice(fs, split_guarded(body))
        gen, params, ret, where = it.generics, it.params, it.ret, it.where
        params = nameless(strip_comments(params))
        if im is not None and im.assoc:
            for nm, ty in list(im.assoc.items()) * 2:
                # (twice: the value may mention another associated type)
                r = re.compile(r'\bSelf::%s\b' % nm)
                body = re.sub(r'\bSelf::%s\s*::' % nm, lambda m: '<' + ty + '>::', body)
                # (a struct literal names the type without its arguments)
                body = re.sub(r'\bSelf::%s(?=\s*\{\s*\w+\s*[:,}])' % nm, lambda m: base_name(ty), body)
                params, ret, where, body = [r.sub(lambda m: ty, x) for x in (params, ret, where, body)]
        if im is not None and im.kind == 'impl':
            # associated types of the type's other impls (DoubleEndedIterator uses Iterator's Item)
            for im2 in S.impls:
                if im2.kind == 'impl' and im2 is not im and sq(im2.selfty) == sq(im.selfty):
                    for nm, ty in im2.assoc.items():
                        r = re.compile(r'\bSelf::%s\b' % nm)
                        params, ret, where, body = [r.sub(lambda m: ty, x) for x in (params, ret, where, body)]
        if fs.opaque and ret.strip().startswith('impl '):
            ret = fs.opaque
            m = re.match(r"('\w+)\s+(.*)$", ret)
            if m:
                # the elided lifetime gets a name
                ret = m.group(2)
                gen = '<' + ', '.join([m.group(1)] + [x.strip() for x in split_top(gen.strip()[1:-1])]) + '>' if gen.strip() else '<' + m.group(1) + '>'
                params = re.sub(r'&\s*(mut\s+)?self', lambda q: '&%s %sself' % (m.group(1), q.group(1) or ''), params, count=1)
        selfty = im.selfty if im is not None else ''
        if selfty.strip().startswith('&') and 'keeptrait' not in fs.flags:
            # a method of &T is emitted as a method of T that takes &self
            m = re.match(r"\s*(&\s*(?:'\w+\s+)?)(.*)$", selfty, re.S)
            params = re.sub(r'^\(\s*self\b', '(' + m.group(1) + 'self', params)
            params, ret, where, body = [re.sub(r'\bSelf\b', selfty.strip(), x) for x in (params, ret, where, body)]
            selfty = m.group(2)
        name = fs.flags.get('name', it.name)
        igen = im.generics if im is not None else ''
        if im is not None and im.kind == 'impl' and 'keeptrait' not in fs.flags and im.trait:
            # parameters of the impl that only its trait mentions become the function's own
            keep, moved = [], []
            for gi, g in enumerate(split_top(igen.strip()[1:-1]) if igen.strip() else []):
                nm = re.match(r"\s*(?:const\s+)?('?\w+)", g).group(1)
                used = re.search(r"(?<![\w'])%s\b" % re.escape(nm), selfty) or re.search(r"(?<![\w'])%s\b" % re.escape(nm), im.where or '') \
                    or any(re.search(r"(?<![\w'])%s\b" % re.escape(nm), o) for oi, o in enumerate(split_top(igen.strip()[1:-1])) if oi != gi)
                (keep if used else moved).append(g.strip())
            if moved:
                igen = '<' + ', '.join(keep) + '>' if keep else ''
                own = split_top(gen.strip()[1:-1]) if gen.strip() else []
                allg = moved + [x.strip() for x in own]
                allg = [x for x in allg if x.startswith("'")] + [x for x in allg if not x.startswith("'")]
                gen = '<' + ', '.join(allg) + '>'
                # the impl header implies these outlives bounds, a function header must state them
                for l in moved:
                    if l.startswith("'"):
                        for t in re.findall(r"&\s*%s\s+(?:mut\s+)?(\w+)\b" % re.escape(l), im.trait):
                            where = (where.strip().rstrip(',') + ',' if where else 'where') + ' %s: %s' % (t, l)
        if ghost:
            p = params.rstrip()[:-1].rstrip()
            params = p + ('' if p[-1] in '(,' else ', ') + ghost + ')'
        sig = 'fn ' + name + gen + params
        if ret:
            if fs.ret:
                sig += ' -> (' + fs.ret + ': ' + ret + ')'
            else:
                sig += ' -> ' + ret
        if 'where' in fs.flags:
            where = (where.strip().rstrip(',') + ',' if where else 'where') + ' ' + fs.flags['where'].replace(':', ': ')
        if where:
            sig += '\n' + where.rstrip().rstrip(',') + ','
        for a, b in self.subst:
            sig = re.sub(a, b, sig)
        sig = nosized(sig)
        if it.mods and 'unsafe' in it.mods:
            sig = 'unsafe ' + sig
        if it.mods and 'const' in it.mods:
            sig = 'const ' + sig
        attrs = fs.flags.get('attr', '')
        out = ''
        if 'rlimit' in fs.flags:
            out += '#[verifier::rlimit(%s)]\n' % fs.flags['rlimit']
        if 'nospin' not in fs.flags:
            out += '#[verifier::spinoff_prover]\n'
        if 'noiso' in fs.flags:
            out += '#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n'
        if 'nodecr' in fs.flags:
            out += '#[verifier::exec_allows_no_decreases_clause]\n'
        contract = fs.contract
        if stub:
            out = '#[verifier::external_body]\n'
            contract = re.sub(r'(?m)^\s*(decreases|via)\b(.|\n)*', '', contract)
        out += sig + '\n' + contract.rstrip() + '\n' + body
        if 'raw' in fs.flags:
            return out
        if im is not None and im.kind == 'impl':
            sty = selfty
            iw = im.where
            hdr = 'impl' + igen + ' '
            if 'keeptrait' in fs.flags:
                hdr += im.trait + ' for '
            hdr += sty + ' ' + iw
            for a, b in self.subst:
                hdr = re.sub(a, b, hdr)
            hdr = nosized(strip_comments(hdr))
            if 'keeptrait' in fs.flags:
                out = ''.join('type %s = %s;\n' % kv for kv in im.assoc.items()) + out
                # the impl's other methods; their contracts come from the trait
                for nm in [x for x in fs.flags.get('with', '').split(',') if x]:
                    sib = [f for f in self.src.find_fn(fs.key.rsplit('::', 1)[0] + '::' + nm) if f.impl is im]
                    if not sib:
                        raise Lost('method %s not found' % nm)
                    f2 = FnSpec(fs.key, None, {'raw': '1', 'keeptrait': '1'})
                    t2 = self._fn_text(f2, sib[0], stub)
                    out += '\n' + t2
            out = hdr + ' {\n' + fs.impl + '\n' + out + '\n}'
        return out

    def _splice(self, fs, body):
        toks = lex(body)
        mt = match_brackets(toks)
        ins = []   # (pos, order, text)
        # loops
        loops = []
        for i, t in enumerate(toks):
            if t.k == 'id' and t.s in ('while', 'loop', 'for'):
                if t.s == 'for' and i + 1 < len(toks) and toks[i + 1].s == '<':
                    continue
                j = i + 1
                while toks[j].s != '{':
                    j = mt[j] + 1 if toks[j].s in ('(', '[') else j + 1
                loops.append((i, j))
        if len(loops) != len(fs.loops) and 'anyloops' not in fs.flags:
            raise Lost('expected %d loop(s), found %d' % (len(fs.loops), len(loops)))
        for n, t in fs.loops.items():
            if n >= len(loops) and 'optloops' in fs.flags:
                continue
            if n >= len(loops):
                raise Lost('loop %d not found' % n)
            ins.append((toks[loops[n][1]].a, 0, '\n' + t + '\n'))
        for n, t in fs.bodies.items():
            if n >= len(loops) and 'optloops' in fs.flags:
                continue
            if n >= len(loops):
                raise Lost('loop %d not found' % n)
            ins.append((toks[loops[n][1]].b, 0, '\n' + t + '\n'))
        for n, t in fs.pasts.items():
            if n >= len(loops) and 'optloops' in fs.flags:
                continue
            if n >= len(loops):
                raise Lost('loop %d not found' % n)
            ins.append((toks[mt[loops[n][1]]].b, 0, '\n' + t + '\n'))
        for n, t in fs.bodyends.items():
            if n >= len(loops) and 'optloops' in fs.flags:
                continue
            if n >= len(loops):
                raise Lost('loop %d not found' % n)
            ins.append((toks[mt[loops[n][1]]].a, 0, '\n' + t + '\n'))
        # closures
        if fs.closures:
            cl = find_closures(toks, mt)
            if len(cl) != len(fs.closures) and 'anyclosures' not in fs.flags:
                raise Lost('expected %d closure(s), found %d' % (len(fs.closures), len(cl)))
            for n, (hdr, t) in fs.closures.items():
                (p0, p1, b0, b1) = cl[n]
                # hdr: "(x: T, y: U) -> (r: R)"  parameters' types; names stay those of the source
                m = re.match(r'\((.*)\)\s*->\s*\((.*)\)\s*$', hdr)
                params = m.group(1)
                ptext = body[toks[p0].b:toks[p1].a] if p1 > p0 else ''
                pt = [x for x in split_top(params)]
                sp = [x for x in split_top(ptext)]
                if len(pt) != len(sp):
                    raise Lost('closure %d: parameter count' % n)
                # spec parameter names may differ from the source's: rename in ghost text
                new = []
                lets = ''
                for tp, s_ in zip(pt, sp):
                    nm, ty = tp.split(':', 1)
                    nm = nm.strip()
                    sn = s_.split(':')[0].strip()
                    ty = ty.strip()
                    if sn == '_':
                        sn = nm
                    elif re.match(r'^\w+$', sn):
                        t = re.sub(r'\b%s\b' % nm, sn, t)
                    elif re.match(r'^mut\s+\w+$', sn):
                        pass
                    else:
                        # a pattern: bind the parameter, take it apart in the body
                        lets += 'let %s = %s; ' % (s_, nm)
                        sn = nm
                    new.append(sn + ': ' + ty)
                head = '|' + ', '.join(new) + '| -> (' + m.group(2) + ')\n' + t + '\n'
                ins.append((toks[p0].a, 1, ('CUT', toks[p1].b, head)))
                if toks[b0].s == '{' and lets:
                    ins.append((toks[b0].b, 0, ' ' + lets))
                if toks[b0].s != '{':
                    ins.append((toks[b0].a, 2, '{ ' + lets))
                    ins.append((toks[b1 - 1].b, -1, ' }'))
        # begin / tail
        begin = fs.begin
        if self.probe:
            begin += '\nproof { assert(false); }'
        if begin:
            ins.append((toks[0].b, 0, '\n' + begin + '\n'))
        if fs.tail:
            st = stmts(toks, mt, 1, len(toks) - 1)
            if st and not st[-1][2]:
                i, j, _ = st[-1]
                if toks[i].s == 'return':
                    raise Lost('tail is a return')
                ins.append((toks[i].a, 5, 'let __r = '))
                ins.append((toks[j - 1].b, -5, ';\n' + fs.tail + '\n__r\n'))
            else:
                ins.append((toks[-1].a, 0, '\n' + fs.tail + '\n'))
        for which in ('before', 'after'):
            for pat, t in getattr(fs, which):
                soft = pat.startswith('?')
                p = pat[1:] if soft else pat
                ms = list(re.finditer(p, body))
                if not ms:
                    self.soft_missed.append((fs.uid, p))
                    if soft:
                        continue
                    raise Lost('anchor %r not found' % p)
                for m in ms:
                    pos = m.start() if which == 'before' else m.end()
                    ins.append((pos, 0, '\n' + t + '\n'))
        ins.sort(key=lambda x: (x[0], x[1]))
        out = []
        pos = 0
        for a, _, t in ins:
            if a < pos:
                raise Lost('overlapping splice')
            out.append(body[pos:a])
            if isinstance(t, tuple):
                out.append(t[2])
                pos = t[1]
            else:
                out.append(t)
                pos = a
        out.append(body[pos:])
        return ''.join(out)

    def text(self):
        return '\n'.join(self.lines) + '\n'

    def where(self, line):
        for a, b, k, p in self.map:
            if a <= line <= b:
                return k
        return None


def expand_macro(text, name, defs):
    """expand `name!(..);` in text; the macro has one arm `($a:f, $b:g $(, $X:h)*) => { body };`"""
    toks = lex(defs)
    mt = match_brackets(toks)
    i = next(i for i, t in enumerate(toks) if t.s == 'macro_rules' and toks[i + 2].s == name)
    p = i + 4
    assert toks[p].s == '(' and toks[mt[p] + 1].s == '=>', 'macro shape'
    b = mt[p] + 2
    pat = defs[toks[p].b:toks[mt[p]].a].strip()
    body = defs[toks[b].b:toks[mt[b]].a]
    rest = mt[b] + 1
    assert rest + 1 >= mt[i + 3] , 'macro has several arms'
    m = re.match(r'^(.*?)\s*\$\(\s*,\s*\$(\w+)\s*:\s*\w+\s*\)\s*\*$', pat, re.S)
    rep = m.group(2) if m else None
    names = [re.match(r'\s*\$(\w+)\s*:\s*\w+\s*$', x).group(1) for x in split_top(m.group(1) if m else pat)]

    def call(mm):
        args = [x.strip() for x in split_top(mm.group(1))]
        assert len(args) >= len(names) and (rep or len(args) == len(names)), 'macro arguments'
        out = body
        if rep:
            more = args[len(names):]
            out = re.sub(r'\$\(([^()]*)\)\s*\*', lambda q: ''.join(re.sub(r'\$%s\b' % rep, a, q.group(1)) for a in more), out)
        for n, a in zip(names, args):
            out = re.sub(r'\$%s\b' % n, lambda q: a, out)
        assert '$' not in out, 'macro variable left over'
        return out
    return re.sub(r'(?:\bcrate::)?\b%s!\s*\(([^()]*)\)\s*;' % name, call, text)


def ghost_args(body, names, g):
    """every call of one of the names gets the ghost argument, last"""
    toks = lex(body)
    mt = match_brackets(toks)
    ins = []
    for i, x in enumerate(toks):
        if x.k != 'id' or x.s not in names or (i and toks[i - 1].s == 'fn'):
            continue
        j = i + 1
        if j + 1 < len(toks) and toks[j].s == '::' and toks[j + 1].s == '<':
            d, j = 1, j + 2
            while d:
                d += {'<': 1, '>': -1, '>>': -2}.get(toks[j].s, 0)
                j += 1
        if j < len(toks) and toks[j].s == '(':
            e = mt[j]
            ins.append((toks[e].a, ('' if toks[e - 1].s in ('(', ',') else ', ') + 'Tracked(&mut *%s)' % g))
    for a, x in sorted(ins, reverse=True):
        body = body[:a] + x + body[a:]
    return body


def drop_sites(body):
    """assignments `X = E;` become vset(E, &mut X) and discarded `E.take()` become
    vdrop(E.take()): the value that is overwritten or discarded is dropped there, which
    their preconditions speak about"""
    toks = lex(body)
    mt = match_brackets(toks)
    op = {b: a for a, b in mt.items() if b > a} if isinstance(mt, dict) else {b: a for a, b in enumerate(mt) if b is not None and b > a}
    edits = []

    def end_of(i):
        # the end of the expression that starts at token i
        while i < len(toks):
            if toks[i].s in ('(', '[', '{'):
                i = mt[i] + 1
                continue
            if toks[i].s in (';', ',', ')', ']', '}'):
                return i
            i += 1
        return i

    i = 1
    while i < len(toks):
        if toks[i - 1].s not in ('{', ';', '}', '=>', '|'):
            i += 1
            continue
        j = i
        if toks[i].s == 'let' and i + 2 < len(toks) and toks[i + 1].s == '_' and toks[i + 2].s == '=':
            e = end_of(i + 3)
            edits.append((toks[i].a, toks[i + 2].b, 'vdrop('))
            edits.append((toks[e - 1].b, toks[e - 1].b, ')'))
            i = i + 3
            continue
        while j < len(toks) and toks[j].s in ('*', '.', '::') or j < len(toks) and toks[j].k in ('id', 'num') and toks[j].s not in (
                'let', 'if', 'while', 'for', 'match', 'return', 'loop', 'break', 'const', 'static', 'type', 'use'):
            j += 1
        if j > i and j + 1 < len(toks) and toks[j].s == '=' and toks[j + 1].s != '&':  # (references are not owners)
            e = end_of(j + 1)
            lhs = body[toks[i].a:toks[j - 1].b]
            edits.append((toks[i].a, toks[j].b, 'vset('))
            edits.append((toks[e - 1].b, toks[e - 1].b, ', &mut %s)' % lhs))
            i = j + 1
            continue
        if j > i and j + 2 < len(toks) and toks[j - 1].s == 'take' and toks[j].s == '(' and toks[mt[j] + 1].s == ';':
            edits.append((toks[i].a, toks[i].a, 'vdrop('))
            edits.append((toks[mt[j]].b, toks[mt[j]].b, ')'))
        i += 1
    # a local that took a list over and is never moved on is dropped where its block
    # ends and at every return before that
    stack = []
    for i, t in enumerate(toks):
        if t.s == '{':
            stack.append(i)
        elif t.s == '}':
            stack.pop()
        elif t.s == 'let' and stack:
            j = i + 1
            if toks[j].s == 'mut':
                j += 1
            if toks[j].k != 'id' or toks[j].s == '_' or toks[j + 1].s not in ('=', ':'):
                continue
            x = toks[j].s
            e = end_of(j + 1)
            while e < len(toks) and toks[e].s != ';':
                e = end_of(e + 1)
            if e >= len(toks) or not (toks[e - 1].s == ')' and toks[op[e - 1] - 1].s in ('take', 'replace')):
                continue
            blk = mt[stack[-1]]
            moved = False
            for k in range(e, blk):
                if toks[k].s == x and toks[k].k == 'id' and toks[k - 1].s in ('=', '(', ',', ':', 'match', '=>', '{', 'return') \
                        and toks[k + 1].s in (';', ')', ',', '{', '}'):
                    moved = True
            if moved:
                continue
            for k in range(e, blk):
                if toks[k].s == 'return':
                    q = end_of(k)
                    edits.append((toks[k].a, toks[k].a, '{ vend(&%s); ' % x))
                    edits.append((toks[q - 1].b, toks[q - 1].b, ' }'))
            if toks[blk - 1].s in (';', '}'):
                edits.append((toks[blk].a, toks[blk].a, ' vend(&%s); ' % x))
    for a, b, x in sorted(edits, reverse=True):
        body = body[:a] + x + body[b:]
    return body


def nameless(params):
    """`_: T` parameters get a name (Verus wants one)"""
    n = [0]

    def r(m):
        n[0] += 1
        return '%s_p%d:' % (m.group(1), n[0])
    return re.sub(r'([(,]\s*)_\s*:', r, params)


def split_top(s):
    if not s.strip():
        return []
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return out


def find_closures(toks, mt):
    """-> list of (first '|', last '|', body start, body end exclusive) token indexes"""
    res = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.s in ('|', '||') and t.k == 'p':
            pv = toks[i - 1].s if i else '('
            if pv in ('(', ',', '=', '{', ';', 'return', 'move', '=>', 'mut', '&', ':'):
                if t.s == '||':
                    p1 = i
                else:
                    p1 = i + 1
                    while toks[p1].s != '|':
                        p1 = mt[p1] + 1 if toks[p1].s in ('(', '[') else p1 + 1
                b0 = p1 + 1
                if toks[b0].s == '{':
                    b1 = mt[b0] + 1
                else:
                    b1 = b0
                    while b1 < len(toks) and toks[b1].s not in (',', ')', ';', '}', ']'):
                        b1 = mt[b1] + 1 if toks[b1].s in ('(', '[', '{') else b1 + 1
                res.append((i, p1, b0, b1))
                i = p1 + 1
                continue
        i += 1
    return res


if __name__ == '__main__':
    g = Gen(sys.argv[1], sys.argv[2])
    open(sys.argv[3], 'w').write(g.text())
    print(len(g.fns), 'functions; soft anchors missed:', g.soft_missed, '; lost:', g.lost)
