"""rx: translates the regular expressions of lazy_static blocks into Verus predicates, from the literals of the current source.

re_NAME_at(s, i): the expression matches somewhere from position i; re_NAME(s): it matches somewhere in s
(what Regex::is_match decides).  Only the language counts, so greediness is ignored.  Anything outside the
subset below raises Unsupported, and the caller reports the function as out of reach."""
import re

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ parsing
class P:
    def __init__(self, src):
        self.s, self.i, self.lazy = src, 0, False
    def more(self): return self.i < len(self.s)
    def peek(self): return self.s[self.i] if self.more() else ''
    def take(self):
        c = self.peek(); self.i += 1
        return c
    def alt(self, ci):
        xs = [self.cat(ci)]
        while self.peek() == '|':
            self.take(); xs.append(self.cat(ci))
        return xs[0] if len(xs) == 1 else ('alt', xs)
    def cat(self, ci):
        xs = []
        while self.more() and self.peek() not in '|)':
            xs.append(self.post(self.atom(ci)))
        # runs of characters become one literal
        out = []
        for x in xs:
            if x[0] == 'lit' and out and out[-1][0] == 'lit' and out[-1][2] == x[2]: out[-1] = ('lit', out[-1][1] + x[1], x[2])
            else: out.append(x)
        return out[0] if len(out) == 1 else ('cat', out)
    def post(self, x):
        while self.more() and self.peek() in '*+?{':
            c = self.take()
            lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}.get(c, (0, 0))
            if c == '{':
                m = re.compile(r'(\d+)(,(\d*))?\}').match(self.s, self.i)
                if not m: raise Unsupported('repetition')
                self.i = m.end()
                lo = int(m.group(1))
                hi = lo if m.group(2) is None else (int(m.group(3)) if m.group(3) else None)
            if self.peek() == '?':
                self.take()
                self.lazy = True
            x = ('rep', x, lo, hi)
        return x
    def esc(self):
        c = self.take()
        if c in 'nrt': return ('lit', {'n': '\n', 'r': '\r', 't': '\t'}[c])
        if c == 'w': return ('cls', [('w',)])
        if c == 'b': return ('wb',)
        if c.isalnum() or c == '': raise Unsupported('escape \\' + c)
        return ('lit', c)
    def atom(self, ci):
        c = self.take()
        if c == '(':
            if self.peek() == '?':
                m = re.compile(r'\?(i-u|i|):').match(self.s, self.i)
                if not m: raise Unsupported('group')
                self.i = m.end()
                ci = {'i': 'u', 'i-u': 'a', '': ci}[m.group(1)]
            x = self.alt(ci)
            if self.take() != ')': raise Unsupported('group')
            return x
        if c == '[': return self.cls(ci)
        if c == '^': return ('start',)
        if c == '$': return ('end',)
        if c == '.': return ('cls', [('not', [('r', '\n', '\n')])])
        if c == '\\':
            x = self.esc()
            return ('lit', x[1], self.fold(x[1], ci)) if x[0] == 'lit' else x
        if c in '*+?{': raise Unsupported('repetition')
        return ('lit', c, self.fold(c, ci))
    def fold(self, c, ci): return ci if ci and c.isalpha() else (None if not ci else 'n')
    def cls(self, ci):
        neg = self.peek() == '^'
        if neg: self.take()
        rs, first = [], True
        while first or self.peek() != ']':
            first = False
            c = self.take()
            if c == '' or c == '[' : raise Unsupported('class')
            if c == '\\':
                x = self.esc()
                if x[0] != 'lit': raise Unsupported('class')
                c = x[1]
            d = c
            if self.peek() == '-' and self.s[self.i+1:self.i+2] not in (']', ''):
                self.take(); d = self.take()
                if d == '\\': d = self.esc()[1]
                if d == '[': raise Unsupported('class')
            if self.peek() == '&' or c == '&' or c == '~': raise Unsupported('class')
            rs.append((c, d))
        self.take()
        if ci and any(x.isalpha() for r in rs for x in r): raise Unsupported('class without case')
        # sorted and merged
        out = []
        for a, b in sorted(rs):
            if out and ord(a) <= ord(out[-1][1]) + 1: out[-1] = (out[-1][0], max(out[-1][1], b))
            else: out.append((a, b))
        rs = [('r', a, b) for a, b in out]
        return ('cls', [('not', rs)] if neg else rs)

def paths(x):
    """the alternatives of an expression, each a sequence without alternatives outside of repetitions"""
    if x[0] == 'alt': return [p for y in x[1] for p in paths(y)]
    if x[0] == 'cat':
        out = [[]]
        for y in x[1]:
            out = [p + q for p in out for q in paths(y)]
            if len(out) > 200: raise Unsupported('alternatives')
        return out
    if x[0] == 'rep':
        if x[2:] == (0, 1): return paths(x[1]) + [[]]
        return [[('rep', merge(x[1]), x[2], x[3])]]
    return [[x]]

def merge(x):
    """A form that does not depend on the order of the alternatives or on how they are factored."""
    alts = []
    for p in paths(x):
        out = []
        for z in p:
            # literals one after the other; a character without case takes the folding of its neighbours
            if z[0] == 'lit' and out and out[-1][0] == 'lit' and (z[2] == out[-1][2] or 'n' in (z[2], out[-1][2]) and None not in (z[2], out[-1][2])):
                f = out[-1][2] if out[-1][2] != 'n' else z[2]
                out[-1] = ('lit', out[-1][1] + z[1], f)
            else: out.append(z)
        y = out[0] if len(out) == 1 else ('cat', out)
        if y not in alts: alts.append(y)
    return alts[0] if len(alts) == 1 else ('alt', sorted(alts, key=repr))

# ------------------------------------------------------------------ emission
def ch(c): return {"'": "'\\''", '\\': "'\\\\'", '\n': "'\\n'", '\t': "'\\t'", '\r': "'\\r'"}.get(c, "'%s'" % c)
def st(t): return '"%s"@' % t.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r')
def incl(rs, c):
    o = []
    for r in rs:
        if r[0] == 'w': o.append('re_word(%s)' % c)
        elif r[0] == 'not': o.append('!(%s)' % incl(r[1], c))
        elif r[1] == r[2]: o.append('%s == %s' % (c, ch(r[1])))
        else: o.append("%s <= %s && %s <= %s" % (ch(r[1]), c, c, ch(r[2])))
    return ' || '.join('(%s)' % x for x in o)

class Emit:
    """Continuation passing: go(x, p, cont) says that x matches from p up to some q with cont(q).
    re_pos(q) is true for every q: the term the positions are found by."""
    def __init__(self, name):
        self.name, self.n, self.defs, self.cls = name, 0, [], {}
        self.lits = []
    def fresh(self, kind):
        self.n += 1
        return '%s%d' % (kind, self.n) if kind == 'q' else 're_%s_%s%d' % (self.name, kind, self.n)
    def run(self, rs):
        """every character of s[a..b] is in the class"""
        t = incl(rs, 'c')
        if t not in self.cls:
            f = self.cls[t] = self.fresh('c')
            self.defs.append('pub open spec fn %s(s: Seq<char>, a: int, b: int) -> bool { 0 <= a <= b <= s.len() && forall|k: int| a <= k < b ==> { let c = #[trigger] s[k]; %s } }' % (f, t))
        return self.cls[t]
    def go(self, x, p, cont):
        k = x[0]
        if k == 'start': return '(%s == 0 && %s)' % (p, cont(p))
        if k == 'end': return '(%s == s.len() && %s)' % (p, cont(p))
        if k == 'wb': return '(re_wb(s, %s) && %s)' % (p, cont(p))
        if k == 'lit':
            f = {None: 're_at', 'n': 're_at', 'a': 're_at_ascii', 'u': 're_at_fold'}[x[2]]
            if st(x[1]) not in self.lits: self.lits.append(st(x[1]))
            return '(%s(s, %s, %s) && %s)' % (f, st(x[1]), p, cont('%s + %d' % (p, len(x[1]))))
        if k == 'cls': return '(%s < s.len() && (%s) && %s)' % (p, incl(x[1], 's[%s]' % p), cont('%s + 1' % p))
        if k == 'cat':
            def rest(i): return (lambda q: self.go(x[1][i], q, rest(i + 1))) if i < len(x[1]) else cont
            return rest(0)(p)
        if k == 'alt': return '(%s)' % ' || '.join(self.go(y, p, cont) for y in x[1])
        if k == 'rep':
            y, lo, hi = x[1:]
            if y[0] == 'lit' and len(y[1]) == 1 and y[2] in (None, 'n'): y = ('cls', [('r', y[1], y[1])])
            if (lo, hi) == (0, 1): return '(%s || %s)' % (self.go(y, p, cont), cont(p))
            if y[0] == 'cls':
                f = self.run(y[1])
                if hi == lo: return '(%s(s, %s, %s + %d) && %s)' % (f, p, p, lo, cont('%s + %d' % (p, lo)))
                if hi is not None: raise Unsupported('bounded repetition')
                q = self.fresh('q')
                return '(exists|%s: int| #[trigger] re_pos(%s) && %s(s, %s, %s) && %s >= %s + %d && %s)' % (q, q, f, p, q, q, p, lo, cont(q))
            if lo == 1 and hi is None:
                # one pass of the group, and one or more
                f, g, q = self.fresh('b'), self.fresh('p'), self.fresh('q')
                self.defs.append('pub open spec fn %s(s: Seq<char>, a: int, z: int) -> bool { %s }' % (f, self.go(y, 'a', lambda q: '(%s == z)' % q)))
                self.defs.append('pub open spec fn %s(s: Seq<char>, a: int, b: int) -> bool decreases b - a { %s(s, a, b) || exists|k: int| #[trigger] re_pos(k) && a < k < b && %s(s, a, k) && %s(s, k, b) }' % (g, f, f, g))
                return '(exists|%s: int| #[trigger] re_pos(%s) && %s <= %s <= s.len() && %s(s, %s, %s) && %s)' % (q, q, p, q, g, p, q, cont(q))
        raise Unsupported(k)

def translate(name, src):
    """the specification text, and the string literals in it"""
    p = P(src)
    x = p.alt(None)
    if p.more(): raise Unsupported('parenthesis')
    e = Emit(name)
    x = merge(x)
    if x[0] == 'alt':
        # one predicate for each alternative
        body = []
        for n, y in enumerate(x[1]):
            e.defs.append('pub open spec fn re_%s_a%d(s: Seq<char>, i: int) -> bool { %s }' % (name, n, e.go(y, 'i', lambda q: 'true')))
            body.append('re_%s_a%d(s, i)' % (name, n))
        body = ' || '.join(body)
    else: body = e.go(x, 'i', lambda q: 'true')
    return '\n'.join(e.defs + [
        'pub open spec fn re_%s_at(s: Seq<char>, i: int) -> bool { %s }' % (name, body),
        'pub open spec fn re_%s(s: Seq<char>) -> bool { exists|i: int| #[trigger] re_pos(i) && 0 <= i <= s.len() && re_%s_at(s, i) }' % (name, name)]), e.lits

class Ends:
    """Where the match that the engine prefers ends: alternatives in order, repetitions as long as possible.
    go(x, p, cont): the first success of cont(q) over the ends q of x from p, in the order of preference."""
    def __init__(self, name):
        self.name, self.n, self.defs, self.lits, self.runs = name, 0, [], [], {}
    def fresh(self, kind):
        self.n += 1
        return 're_%s_%s%d' % (self.name, kind, self.n)
    def first(self, a, b): return '{ let a = %s; if a is Some { a } else { %s } }' % (a, b)
    def go(self, x, p, cont):
        k = x[0]
        if k == 'start': return '(if %s == 0 { %s } else { None })' % (p, cont(p))
        if k == 'end': return '(if %s == s.len() { %s } else { None })' % (p, cont(p))
        if k == 'wb': return '(if re_wb(s, %s) { %s } else { None })' % (p, cont(p))
        if k == 'lit':
            f = {None: 're_at', 'n': 're_at', 'a': 're_at_ascii', 'u': 're_at_fold'}[x[2]]
            if st(x[1]) not in self.lits: self.lits.append(st(x[1]))
            return '(if %s(s, %s, %s) { %s } else { None })' % (f, st(x[1]), p, cont('%s + %d' % (p, len(x[1]))))
        if k == 'cls': return '(if 0 <= %s < s.len() && (%s) { %s } else { None })' % (p, incl(x[1], 's[%s]' % p), cont('%s + 1' % p))
        if k == 'cat':
            def rest(i): return (lambda q: self.go(x[1][i], q, rest(i + 1))) if i < len(x[1]) else cont
            return rest(0)(p)
        if k == 'alt':
            r = self.go(x[1][-1], p, cont)
            for y in reversed(x[1][:-1]): r = self.first(self.go(y, p, cont), r)
            return r
        if k == 'rep':
            y, lo, hi = x[1:]
            if y[0] == 'lit' and len(y[1]) == 1 and y[2] in (None, 'n'): y = ('cls', [('r', y[1], y[1])])
            if (lo, hi) == (0, 1): return self.first(self.go(y, p, cont), cont(p))
            if hi is not None: raise Unsupported('bounded repetition')
            if y[0] == 'cls':
                t, g = incl(y[1], 's[p]'), self.fresh('g')
                if t not in self.runs:
                    e = self.runs[t] = self.fresh('e')
                    self.defs.append('pub open spec fn %s(s: Seq<char>, p: int) -> int decreases s.len() - p { if 0 <= p < s.len() && (%s) { %s(s, p + 1) } else { p } }' % (e, t, e))
                e = self.runs[t]
                self.defs.append('pub open spec fn %s(s: Seq<char>, p: int, q: int) -> Option<int> decreases q - p { if q < p + %d { None } else %s }' % (g, lo, self.first(cont('q'), '%s(s, p, q - 1)' % g)))
                return '%s(s, %s, %s(s, %s))' % (g, p, e, p)
            if lo in (0, 1):
                h = self.fresh('h')
                again = lambda q: '(if p < %s <= s.len() { %s(s, %s) } else { None })' % (q, h, q)
                self.defs.append('pub open spec fn %s(s: Seq<char>, p: int) -> Option<int> decreases s.len() - p %s' % (h, self.first(self.go(y, 'p', again), cont('p'))))
                return '%s(s, %s)' % (h, p) if lo == 0 else self.go(y, p, lambda q: '%s(s, %s)' % (h, q))
        raise Unsupported(k)

def ends(name, src):
    """the specification text of re_NAME_end(s, i), the end of the match at i, and the string literals in it"""
    p = P(src)
    x = p.alt(None)
    if p.more(): raise Unsupported('parenthesis')
    if p.lazy: raise Unsupported('lazy repetition')
    e = Ends(name)
    body = e.go(x, 'i', lambda q: 'Some(%s)' % q)
    return '\n'.join(e.defs + ['pub open spec fn re_%s_end(s: Seq<char>, i: int) -> Option<int> { %s }' % (name, body)]), e.lits

def unquote(t):
    m = re.match(r'r(#*)"(.*)"\1$', t, re.S)
    if m: return m.group(2)
    def sub(m):
        c = m.group(1)
        if c == '\n': return ''
        if c in ('n', 't', 'r', '\\', '"', "'", '0'): return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c, c)
        raise Unsupported('escape')
    return re.sub(r'\\(.)', sub, t[1:-1], flags=re.S)

if __name__ == '__main__':
    import sys
    print(translate('x', sys.argv[1])[0])
