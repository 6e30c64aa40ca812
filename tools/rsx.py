"""rsx: a small, purely lexical reader of Rust source.

It finds items (functions, structs, enums, impl blocks) in a source file by
token/bracket matching and hands back their exact source text.  It never
re-writes Rust on its own; every rewriting is an explicit, listed step of
`extract.py`.
"""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<rawstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>b?"(?:\\.|\\\n|[^"\\])*")
 |(?P<char>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\\n])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
 |(?P<p>::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|\.\.=|\.\.|.)
''', re.X)


class Tok:
    __slots__ = ('k', 's', 'a', 'b')

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f'{self.s!r}'


def lex(text):
    """tokens without whitespace and comments"""
    out = []
    i = 0
    n = len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            raise ValueError('lex error at %d' % i)
        k = m.lastgroup
        if m.group('rawstr'):
            k = 'str'
        if k == 'h':
            k = 'str'
        if k == 'bc':
            d = 1
            j = i + 2
            while d:
                x = re.compile(r'/\*|\*/').search(text, j)
                if not x:
                    raise ValueError('unterminated comment')
                d += 1 if x.group() == '/*' else -1
                j = x.end()
            i = j
            continue
        if k in ('ws', 'lc'):
            i = m.end()
            continue
        out.append(Tok(k, m.group(), i, m.end()))
        i = m.end()
    return out


OPEN = {'(': ')', '[': ']', '{': '}'}


def match_brackets(toks):
    st, mt = [], {}
    for i, t in enumerate(toks):
        if t.k != 'p':
            continue
        if t.s in OPEN:
            st.append(i)
        elif t.s in ')]}':
            if not st:
                raise ValueError('unbalanced')
            j = st.pop()
            mt[j] = i
            mt[i] = j
    if st:
        raise ValueError('unbalanced')
    return mt


class Item:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Src:
    def __init__(self, path, text=None):
        self.path = path
        self.text = open(path).read() if text is None else text
        self.toks = lex(self.text)
        self.mt = match_brackets(self.toks)
        self.items = []          # Item list
        self.impls = []          # impl headers
        self._scan(0, len(self.toks), None)

    # -- helpers
    def txt(self, i, j):
        """source text of tokens i..j (exclusive)"""
        if i >= j:
            return ''
        return self.text[self.toks[i].a:self.toks[j - 1].b]

    def _skip_angle(self, i):
        """i at '<' -> index after the matching '>'"""
        d = 0
        T = self.toks
        while True:
            s = T[i].s
            if s == '<':
                d += 1
            elif s == '>':
                d -= 1
                if d == 0:
                    return i + 1
            elif s in OPEN:
                i = self.mt[i]
            i += 1

    def _scan(self, i, end, impl):
        T, mt = self.toks, self.mt
        while i < end:
            attrs0 = i
            attrs = []
            while i < end and T[i].s == '#':
                j = i + 1
                if T[j].s == '!':
                    j += 1
                k = mt[j] + 1
                attrs.append(self.txt(i, k))
                i = k
            if i >= end:
                return
            vis0 = i
            if T[i].s == 'pub':
                i += 1
                if i < end and T[i].s == '(' :
                    i = mt[i] + 1
            t = T[i]
            start = i
            mods = []
            while T[i].s in ('const', 'unsafe', 'async', 'extern', 'default') and i + 1 < end and T[i + 1].s in (
                    'fn', 'unsafe', 'const', 'impl', 'trait', 'extern', 'async'):
                mods.append(T[i].s)
                i += 1
            t = T[i]
            if t.s == 'fn':
                i = self._fn(i, start, attrs, impl, mods)
            elif t.s in ('struct', 'enum', 'union') and T[i + 1].k == 'id':
                name = T[i + 1].s
                j = i + 2
                inwhere = False
                while T[j].s not in ('{', ';') and (inwhere or T[j].s != '('):
                    if T[j].s == 'where':
                        inwhere = True
                    if T[j].s == '<':
                        j = self._skip_angle(j)
                    elif T[j].s in '([' and T[j].k == 'p':
                        j = mt[j] + 1
                    else:
                        j += 1
                if T[j].s == '(':
                    j = mt[j] + 1
                    while T[j].s != ';':
                        j += 1
                    e = j + 1
                elif T[j].s == '{':
                    e = mt[j] + 1
                else:
                    e = j + 1
                self.items.append(Item(kind=t.s, name=name, a=i, b=e, attrs=attrs, impl=impl))
                i = e
            elif t.s == 'impl' and (impl is None):
                j = i + 1
                while T[j].s != '{':
                    j = self._skip_angle(j) if T[j].s == '<' else (mt[j] + 1 if T[j].s in '([' else j + 1)
                hdr = self._impl_hdr(i, j)
                hdr.attrs = attrs
                self.items.append(hdr)
                self.impls.append(hdr)
                self._scan(j + 1, mt[j], hdr)
                i = mt[j] + 1
            elif t.s == 'trait':
                j = i + 1
                while T[j].s != '{':
                    j = self._skip_angle(j) if T[j].s == '<' else j + 1
                tr = Item(kind='trait', name=T[i + 1].s, a=i, b=mt[j] + 1, hdr_a=i, hdr_b=j,
                          trait=None, selfty=T[i + 1].s, attrs=attrs, generics='', where='', assoc={}, impl=None,
                          full=self.txt(i, j), body_a=j + 1, body_b=mt[j])
                self.items.append(tr)
                self._scan(j + 1, mt[j], tr)
                i = mt[j] + 1
            elif t.s == 'mod' and T[i + 2].s == '{':
                istest = any('test' in a for a in attrs)
                if not istest:
                    self._scan(i + 3, mt[i + 2], None)
                i = mt[i + 2] + 1
            elif t.s == 'type':
                j = i
                while T[j].s != ';':
                    j = mt[j] + 1 if T[j].s in OPEN else j + 1
                name = T[i + 1].s
                if impl is not None:
                    k = i
                    while T[k].s not in ('=', ';', ':'):
                        k += 1
                    if T[k].s == '=':
                        impl.assoc[name] = self.txt(k + 1, j)
                self.items.append(Item(kind='type', name=name, a=i, b=j + 1, attrs=attrs, impl=impl))
                i = j + 1
            elif t.s in ('const', 'static'):
                j = i
                while T[j].s != ';':
                    j = mt[j] + 1 if T[j].s in OPEN else j + 1
                self.items.append(Item(kind='const', name=T[i + 1].s, a=i, b=j + 1, attrs=attrs, impl=impl))
                i = j + 1
            elif t.s == 'macro_rules':
                j = i
                while T[j].s != '{':
                    j += 1
                self.items.append(Item(kind='macro', name=T[i + 2].s, a=i, b=mt[j] + 1, attrs=attrs, impl=None))
                i = mt[j] + 1
            else:
                # use ...; / mod x; / macro call: skip to ';' or matching brace
                j = i
                while j < end and T[j].s != ';':
                    if T[j].s in OPEN:
                        c = T[j].s
                        j = mt[j]
                        if c == '{' and T[i].s != 'use' and T[i].s != 'let':
                            break
                    j += 1
                i = j + 1

    def _impl_hdr(self, i, j):
        T = self.toks
        k = i + 1
        gen = ''
        if T[k].s == '<':
            e = self._skip_angle(k)
            gen = self.txt(k, e)
            k = e
        # find where / for at depth 0
        w = None
        f = None
        p = k
        while p < j:
            s = T[p].s
            if s == '<':
                p = self._skip_angle(p)
                continue
            if s in '([' and T[p].k == 'p':
                p = self.mt[p] + 1
                continue
            if s == 'for' and f is None and w is None:
                f = p
            if s == 'where' and w is None:
                w = p
            p += 1
        tail = w if w is not None else j
        if f is not None:
            trait = self.txt(k, f)
            sty = self.txt(f + 1, tail)
        else:
            trait = None
            sty = self.txt(k, tail)
        where = self.txt(w, j) if w is not None else ''
        return Item(kind='impl', name=base_name(sty), a=i, b=self.mt[j] + 1, trait=trait, selfty=sty,
                    generics=gen, where=where, assoc={}, impl=None, body_a=j + 1, body_b=self.mt[j],
                    full=self.txt(i, j))

    def _fn(self, i, start, attrs, impl, mods):
        T, mt = self.toks, self.mt
        name = T[i + 1].s
        j = i + 2
        gen = ''
        if T[j].s == '<':
            e = self._skip_angle(j)
            gen = self.txt(j, e)
            j = e
        assert T[j].s == '(', (name, T[j])
        pe = mt[j] + 1
        params = self.txt(j, pe)
        j = pe
        ret = ''
        if T[j].s == '->':
            k = j + 1
            while T[k].s not in ('{', ';', 'where'):
                if T[k].s == '<':
                    k = self._skip_angle(k)
                elif T[k].s in '([':
                    k = mt[k] + 1
                else:
                    k += 1
            ret = self.txt(j + 1, k)
            j = k
        where = ''
        if T[j].s == 'where':
            k = j
            while T[k].s not in ('{', ';'):
                if T[k].s == '<':
                    k = self._skip_angle(k)
                elif T[k].s in '([':
                    k = mt[k] + 1
                else:
                    k += 1
            where = self.txt(j, k)
            j = k
        if T[j].s == ';':
            self.items.append(Item(kind='fn', name=name, a=start, b=j + 1, body=None, attrs=attrs, impl=impl,
                                   generics=gen, params=params, ret=ret, where=where, mods=mods))
            return j + 1
        it = Item(kind='fn', name=name, a=start, b=mt[j] + 1, body=(j, mt[j]), attrs=attrs, impl=impl,
                  generics=gen, params=params, ret=ret, where=where, mods=mods, nested=[], outer=None)
        self.items.append(it)
        k = j + 1
        while k < mt[j]:
            if T[k].s == 'fn' and T[k].k == 'id' and T[k + 1].k == 'id':
                n = len(self.items)
                k = self._fn(k, k, [], None, [])
                self.items[n].outer = it
                it.nested.append(self.items[n])
                continue
            k += 1
        return mt[j] + 1

    def find_fn(self, key):
        """key: `name`, `Type::name`, `Trait@Type::name`; the Trait may carry
        generics (`From<BTreeMap>`), compared by prefix after squeezing blanks."""
        if '>' in key and '>' in key.split('@')[-1]:
            # OUTER>inner: a function defined inside OUTER's body
            o, nm = key.rsplit('>', 1)
            return [n for h in self.find_fn(o) for n in h.nested if n.name == nm]
        tr = None
        k = key
        if '@' in k:
            tr, k = k.split('@', 1)
        if '::' in k:
            ty, nm = k.rsplit('::', 1)
        else:
            ty, nm = None, k
        hits = []
        for it in self.items:
            if it.kind != 'fn' or it.name != nm or getattr(it, 'outer', None) is not None:
                continue
            im = it.impl
            if ty is None:
                if im is None:
                    hits.append(it)
                continue
            if im is None or im.name != ty:
                continue
            if tr is None:
                if im.trait is None:
                    hits.append(it)
            else:
                if im.trait is not None and sq(im.trait).split('::')[-1].startswith(sq(tr)):
                    b = sq(im.trait).split('::')[-1]
                    if '<' in tr or re.split('<', b)[0] == sq(tr):
                        hits.append(it)
        return hits

    def find_item(self, kind, name):
        return [it for it in self.items if it.kind == kind and it.name == name and
                (it.impl is None or kind == 'macro')]


def sq(s):
    return re.sub(r'\s+', '', s)


def base_name(ty):
    s = ty.strip()
    s = re.sub(r"^&\s*('[a-z_]+\s*)?(mut\s+)?", '', s)
    s = re.split(r'<', s)[0]
    return s.strip().split('::')[-1].strip()
