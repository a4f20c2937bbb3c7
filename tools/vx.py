#!/usr/bin/env python3
"""vx: mechanical extraction of Rust functions from /repo into a Verus file.

An overlay (specs/<unit>.vx) lists the items to extract and carries the contracts.  The executable
text of every extracted item is taken from the repository's current working tree on each run; the
overlay can only add specifications and apply the rewrites it declares (listed in the evidence).

Overlay directives (each starts a section that runs to the next directive):
  //@ source PATH               following items come from this file (relative to the repo)
  //@ verbatim                  specification text, emitted as is (spec fns, lemmas, trusted contracts)
  //@ type NAME [ATTRS]         a struct, enum, type alias or const
  //@ fn PATH::NAME             a function; the section text is its contract (option as:NEW: emitted under that name)
  //@ loop N [iter NAME]        contract of the N-th loop of that function
  //@ at start|tail|loop N start|loop N end|after loop N|end   ghost text at that place of that function
  //@ rewrite[?] /REGEX/ => TEXT          rewrite in that function (`?`: may match nothing)
  //@ rewrite2[?] /REGEX/ => TEXT         the same, after `for_each` became a loop
  //@ desugar METHOD=opt|res..  `E.m(|p| b)` on Option or Result becomes the match that defines it
  //@ chain METHOD[#N][=NAME] [|P: T| -> (o: U) ensures ..]   `E.m(args)` becomes NAME(E, args) (default
                                vx_m); its closure gets this signature and is verified against it
  //@ inline NAME               a local closure `let NAME = |p: T| b;` is removed and `NAME(e)` becomes
                                `{ let p: T = e; b }` (refused when b returns early or when a name free in b
                                is bound again between the closure and a call)
  option regex of a fn          its `lazy_static!` regular expressions become predicates (tools/rx.py), emitted before
                                it as re_<fn>; `RE.is_match(x)` becomes vx_is_match(x, Ghost(re_<fn>(x@)))
  option regex:ends of a fn     the same with re_<fn>_end(s, i), the end of the match at i, for `RE.split` and `RE.replace_all`
  //@ alts GOAL                 with that option: a lemma for each alternative of the expression (re_<fn>_alts(s, i):
                                a match at i gives GOAL); the section text is their proof
  //@ rewrite-all /REGEX/ => TEXT   rewrite in every item extracted after it
"""
import re, sys, json, os
import rx

class AnchorLost(Exception):
    pass

TOK = re.compile(r'''
 (?P<ws>\s+)
|(?P<lc>//[^\n]*)
|(?P<bc>/\*)
|(?P<rstr>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
|(?P<str>b?"(?:\\(?:.|\n)|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<id>[A-Za-z_]\w*)
|(?P<p>.)
''', re.X)

class T:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self):
        return self.s

def lex(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        k = m.lastgroup if m.lastgroup != 'h' else 'rstr'
        if k == 'bc':
            d, j = 1, m.end()
            while d and j < len(src):
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        if m.group('rstr') is not None: k = 'str'
        if k not in ('ws', 'lc'):
            out.append(T(k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out

def strip_comments(src):
    """Replace comments by nothing (line structure kept)."""
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if m.lastgroup == 'lc':
            i = m.end(); continue
        if m.lastgroup == 'bc':
            d, j = 1, m.end()
            while d and j < len(src):
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        out.append(m.group(0)); i = m.end()
    return ''.join(out)

OPEN, CLOSE = '([{', ')]}'

def match_close(toks, i):
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p':
            if toks[j].s in OPEN: d += 1
            elif toks[j].s in CLOSE:
                d -= 1
                if d == 0: return j
    raise AnchorLost('unbalanced brackets')

def skip_generics(toks, i):
    """i at '<': index after the matching '>'"""
    d = 0
    while i < len(toks):
        s = toks[i].s
        if s == '<': d += 1
        elif s == '>' and toks[i-1].s != '-':
            d -= 1
            if d == 0: return i + 1
        elif s in OPEN and toks[i].k == 'p':
            i = match_close(toks, i)
        i += 1
    raise AnchorLost('unbalanced generics')

class Item:
    def __init__(self, kind, name, path, src, a, b, impl=None):
        self.kind, self.name, self.path = kind, name, path
        self.src, self.a, self.b, self.impl = src, a, b, impl
    def text(self):
        return self.src[self.a:self.b]

def parse_items(src, toks, i, end, prefix, items, impl=None):
    while i < end:
        start = i
        # attributes
        is_test = False
        while i < end and toks[i].s == '#':
            j = i + 1
            if toks[j].s == '!': j += 1
            e = match_close(toks, j)
            txt = src[toks[j].a:toks[e].b]
            if re.match(r'\[\s*(test|cfg\s*\(\s*test\s*\))', txt): is_test = True
            i = e + 1
        if i >= end: break
        a = toks[i].a
        if toks[i].s == 'pub':
            i += 1
            if i < end and toks[i].s == '(':
                i = match_close(toks, i) + 1
        # qualifiers
        j = i
        while j < end and toks[j].s in ('async', 'unsafe', 'extern', 'const') and toks[j].s != 'const' or \
                (j < end and toks[j].s == 'const' and j + 1 < end and toks[j+1].s in ('fn', 'unsafe', 'async')):
            j += 1
        t = toks[j].s if j < end else ''
        if t == 'fn':
            name = toks[j+1].s
            k = j + 2
            while not (toks[k].k == 'p' and toks[k].s in '{;'):
                if toks[k].k == 'p' and toks[k].s in '([': k = match_close(toks, k)
                k += 1
            e = match_close(toks, k) if toks[k].s == '{' else k
            if not is_test:
                items.append(Item('fn', name, prefix + [name], src, a, toks[e].b, impl))
            i = e + 1
        elif t in ('struct', 'enum', 'union', 'trait', 'mod'):
            name = toks[j+1].s
            k = j + 2
            while not (toks[k].k == 'p' and toks[k].s in '{;('):
                if toks[k].s == '<': k = skip_generics(toks, k); continue
                k += 1
            if toks[k].s == '(':
                k = match_close(toks, k)
                while toks[k].s != ';': k += 1
                e = k
            elif toks[k].s == '{':
                e = match_close(toks, k)
            else:
                e = k
            if t == 'mod' and toks[k].s == '{' and not is_test:
                parse_items(src, toks, k + 1, e, prefix + [name], items)
            elif not is_test:
                items.append(Item(t, name, prefix + [name], src, a, toks[e].b))
            i = e + 1
        elif t == 'impl':
            k = j + 1
            generics = ''
            if toks[k].s == '<':
                g = skip_generics(toks, k)
                generics = src[toks[k].a:toks[g-1].b]; k = g
            hs = k
            trait_end = None
            while not (toks[k].k == 'p' and toks[k].s == '{'):
                if toks[k].s == '<': k = skip_generics(toks, k); continue
                if toks[k].s == 'for': trait_end = k
                if toks[k].s == 'where': break
                k += 1
            ts = (trait_end + 1) if trait_end is not None else hs
            trait = src[toks[hs].a:toks[trait_end-1].b] if trait_end is not None else None
            ty = src[toks[ts].a:toks[k-1].b]
            while not (toks[k].k == 'p' and toks[k].s == '{'): k += 1
            e = match_close(toks, k)
            name = re.sub(r'<.*', '', ty, flags=re.S).strip().lstrip('&').split('::')[-1].strip()
            sub = []
            parse_items(src, toks, k + 1, e, prefix + [name], sub, impl=dict(generics=generics, trait=trait, ty=ty, assoc={}))
            assoc = {x.name: re.sub(r'^(pub\s+)?type\s+\w+\s*=\s*', '', x.text()).rstrip('; \n') for x in sub if x.kind == 'type'}
            for x in sub:
                if x.impl is not None: x.impl['assoc'] = assoc
            if not is_test: items.extend(x for x in sub if x.kind in ('fn', 'const'))
            i = e + 1
        elif t in ('type', 'const', 'static', 'use', 'let'):
            name = toks[j+1].s if toks[j+1].s != 'mut' else toks[j+2].s
            k = j
            while toks[k].s != ';':
                if toks[k].k == 'p' and toks[k].s in OPEN: k = match_close(toks, k)
                k += 1
            if not is_test:
                items.append(Item(t, name, prefix + [name], src, a, toks[k].b, impl))
            i = k + 1
        elif t == 'macro_rules' or (j + 1 < end and toks[j].k == 'id'):
            # a macro invocation or something else: skip to the end of its group
            k = j
            while k < end and not (toks[k].k == 'p' and toks[k].s in '{;('): k += 1
            if k < end and toks[k].s in '{(':
                e = match_close(toks, k)
                if e + 1 < end and toks[e+1].s == ';': e += 1
            else: e = k
            i = e + 1
        else:
            i += 1

class Source:
    def __init__(self, path):
        self.path = path
        try:
            raw = open(path).read()
        except OSError as e:
            raise AnchorLost(str(e))
        self.src = strip_comments(raw)
        self.toks = lex(self.src)
        self.items = []
        parse_items(self.src, self.toks, 0, len(self.toks), [], self.items)
    def find(self, kinds, path):
        want = path.split('::')
        r = [x for x in self.items if x.kind in kinds and x.path[-len(want):] == want and len(x.path) == len(want)]
        if not r:
            r = [x for x in self.items if x.kind in kinds and x.path[-len(want):] == want]
        if len(r) != 1:
            raise AnchorLost('%s: %s %s: %d candidates' % (self.path, '/'.join(kinds), path, len(r)))
        return r[0]

MACRO_DROP = re.compile(r'\btracing\s*::\s*\w+\s*!\s*\(')

def drop_macros(txt):
    while True:
        m = MACRO_DROP.search(txt)
        if not m: return txt
        toks = lex(txt[m.end()-1:])
        e = match_close(toks, 0)
        txt = txt[:m.start()] + '()' + txt[m.end()-1+toks[e].b:]

def replace_panics(txt):
    pat = re.compile(r'\b(?:panic|unreachable|todo|unimplemented)\s*!\s*\(')
    while True:
        m = pat.search(txt)
        if not m: return txt
        toks = lex(txt[m.end()-1:])
        e = match_close(toks, 0)
        txt = txt[:m.start()] + 'vx_unreachable()' + txt[m.end()-1+toks[e].b:]

def strip_attrs(txt):
    toks = lex(txt)
    cuts = []
    i = 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i+1].s == '[':
            e = match_close(toks, i + 1)
            cuts.append((toks[i].a, toks[e].b)); i = e
        i += 1
    for a, b in reversed(cuts): txt = txt[:a] + txt[b:]
    return txt

def loops_of(toks, bi, be):
    """(kw index, body open index) of each loop in source order"""
    r = []
    for i in range(bi, be):
        if toks[i].k == 'id' and toks[i].s in ('for', 'while', 'loop'):
            if toks[i].s == 'for' and toks[i+1].s == '<': continue
            if toks[i-1].s == '.': continue
            k = i + 1
            while not (toks[k].k == 'p' and toks[k].s == '{'):
                if toks[k].k == 'p' and toks[k].s in '([': k = match_close(toks, k)
                elif toks[k].s == 'match':
                    while toks[k].s != '{': k += 1
                    k = match_close(toks, k)
                k += 1
            r.append((i, k))
    return r

def shape(txt):
    """A coarse structural signature: loop kinds in order, the names called, and how often each name or branch comes."""
    toks = lex(txt)
    loops, calls, counts = [], set(), {}
    for i, t in enumerate(toks):
        if t.k == 'id':
            if t.s in ('for', 'while', 'loop') and toks[i-1].s != '.' and not (t.s == 'for' and toks[i+1].s == '<'):
                loops.append(t.s)
            elif i + 1 < len(toks) and toks[i+1].s in ('(', '!') and t.s not in ('if', 'match', 'return', 'in', 'while', 'fn', 'let', 'mut', 'move') \
                    and not (toks[i+1].s == '!' and i + 2 < len(toks) and toks[i+2].s == '='):
                calls.add(t.s)
                counts[t.s] = counts.get(t.s, 0) + 1
            if t.s in ('if', 'match', 'return', 'break', 'continue', 'let'): counts[t.s] = counts.get(t.s, 0) + 1
        elif t.k == 'p' and t.s in ('?', '=>'): counts[t.s] = counts.get(t.s, 0) + 1
    return {'loops': loops, 'calls': sorted(calls), 'counts': counts}

def enumerate_rule(txt, notes):
    """for (P, Q) in E.iter().enumerate() {   ==>   let vx_s = &E; for P in 0..vx_s.len() { let Q = &vx_s[P];"""
    n = 0
    while True:
        toks = lex(txt)
        hit = None
        for i, t in enumerate(toks):
            if t.s == 'for' and toks[i+1].s == '(':
                pe = match_close(toks, i + 1)
                if toks[pe+1].s != 'in': continue
                k = pe + 2
                while not (toks[k].k == 'p' and toks[k].s == '{'):
                    if toks[k].k == 'p' and toks[k].s in '([': k = match_close(toks, k)
                    k += 1
                tail = [x.s for x in toks[k-8:k]]
                if tail == ['.', 'iter', '(', ')', '.', 'enumerate', '(', ')']:
                    hit = (i, pe, k); break
        if not hit: return txt
        i, pe, k = hit
        pat = txt[toks[i+1].b:toks[pe].a]
        p, q = pat.split(',', 1)
        expr = txt[toks[pe+2].a:toks[k-8].a].strip()
        v = 'vx_s%d' % n; n += 1
        ref = '&' + expr if expr.endswith(']') else expr
        txt = (txt[:toks[i].a] + 'let %s = %s; for %s in 0..%s.len() { let %s = &%s[%s];' % (v, ref, p.strip(), v, q.strip(), v, p.strip())
               + txt[toks[k].b:])
        notes.append('for (%s, %s) in %s.iter().enumerate() -> indexed for' % (p.strip(), q.strip(), expr))

def for_each_rule(txt, notes):
    """E.for_each(|P| BODY)   ==>   for P in E { BODY; }   (in statement position)"""
    while True:
        toks = lex(txt)
        hit = None
        for i, t in enumerate(toks):
            if t.s == 'for_each' and toks[i-1].s == '.' and toks[i+1].s == '(' and toks[i+2].s == '|':
                e = match_close(toks, i + 1)
                p = i + 3
                while toks[p].s != '|': p += 1
                # the start of the statement
                k, d = i - 2, 0
                while k >= 0:
                    x = toks[k]
                    if x.k == 'p':
                        if x.s in CLOSE:
                            if x.s == '}' and d == 0: break
                            d += 1
                        elif x.s in OPEN:
                            if d == 0: break
                            d -= 1
                        elif x.s == ';' and d == 0: break
                    k -= 1
                hit = (k + 1, i, p, e); break
        if not hit: return txt
        a, i, p, e = hit
        expr = txt[toks[a].a:toks[i-2].b]
        pat = txt[toks[i+2].b:toks[p].a]
        body = txt[toks[p].b:toks[e].a].strip().rstrip(',')
        end = toks[e].b
        if e + 1 < len(toks) and toks[e+1].s == ';': end = toks[e+1].b
        txt = txt[:toks[a].a] + 'for %s in %s { %s; }' % (pat.strip(), expr, body) + txt[end:]
        notes.append('%s.for_each(|%s| ..) -> for loop' % (re.sub(r'\s+', '', expr), pat.strip()))

def expr_start(toks, dot):
    """Index of the first token of the postfix expression that ends before the `.` at index dot."""
    k = dot - 1
    while True:
        t = toks[k]
        if t.s == '?': k -= 1; continue
        if t.k == 'p' and t.s in ')]':
            d = 0
            while True:
                if toks[k].k == 'p' and toks[k].s in CLOSE: d += 1
                elif toks[k].k == 'p' and toks[k].s in OPEN:
                    d -= 1
                    if d == 0: break
                k -= 1
            q = toks[k-1]
            if q.k == 'id' and q.s not in ('match', 'return', 'in', 'if', 'else', 'while', 'move', 'let', 'mut'): k -= 1; t = toks[k]
            elif q.s == '>':
                # turbofish
                d = 0
                k -= 1
                while True:
                    if toks[k].s == '>': d += 1
                    elif toks[k].s == '<':
                        d -= 1
                        if d == 0: break
                    k -= 1
                k -= 3
                t = toks[k]
            elif q.s == '!': k -= 2; t = toks[k]
            elif q.k == 'p' and q.s in ')]': k -= 1; continue
            else: return k
        elif t.k not in ('id', 'num', 'str', 'chr'):
            raise AnchorLost('receiver of a method call is not understood near %s' % t.s)
        if toks[k-1].s == '.' and not (toks[k-2].s == '.'): k -= 2; continue
        if toks[k-1].s == ':' and toks[k-2].s == ':':
            k -= 3
            continue
        return k

def method_calls(toks, name):
    """[(dot, open paren)] of `.name(` or `.name::<..>(`"""
    r = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s == name and i and toks[i-1].s == '.':
            k = i + 1
            if toks[k].s == ':' and toks[k+1].s == ':': k = skip_generics(toks, k + 2)
            if toks[k].s == '(': r.append((i - 1, k))
    return r

def closure_of(txt, toks, a, b, early=False):
    """The argument between token indexes a..b (exclusive) as (patterns, body), or None when it is no closure."""
    if a < b and toks[a].s == 'move': a += 1
    if not (a < b and toks[a].s == '|'): return None
    k = a + 1
    pats, d, st = [], 0, k
    while not (toks[k].s == '|' and d == 0):
        if toks[k].k == 'p' and toks[k].s in '([<': d += 1
        elif toks[k].k == 'p' and toks[k].s in ')]>': d -= 1
        elif toks[k].s == ',' and d == 0:
            pats.append((st, k)); st = k + 1
        k += 1
    if k > st: pats.append((st, k))
    out = []
    for x, y in pats:
        # without the type
        z, d = x, 0
        while z < y and not (toks[z].s == ':' and d == 0):
            if toks[z].s in '([': d += 1
            elif toks[z].s in ')]': d -= 1
            z += 1
        out.append(txt[toks[x].a:toks[z-1].b])
    body = txt[toks[k+1].a:toks[b-1].b].strip()
    if body.endswith(','): body = body[:-1]
    for t in toks[k+1:b]:
        if not early and (t.s == '?' or (t.k == 'id' and t.s == 'return')): raise AnchorLost('a closure with an early return')
    return out, body

DESUGAR = {
    ('and_then', 'opt'): lambda p, b: 'Some(%s) => %s, None => None' % (p, b),
    ('and_then', 'res'): lambda p, b: 'Ok(%s) => %s, Err(vx_e) => Err(vx_e)' % (p, b),
    ('map', 'opt'): lambda p, b: 'Some(%s) => Some(%s), None => None' % (p, b),
    ('map', 'res'): lambda p, b: 'Ok(%s) => Ok(%s), Err(vx_e) => Err(vx_e)' % (p, b),
    ('map_err', 'res'): lambda p, b: 'Ok(vx_v) => Ok(vx_v), Err(%s) => Err(%s)' % (p, b),
    ('or_else', 'opt'): lambda p, b: 'Some(vx_v) => Some(vx_v), None => %s' % b,
    ('ok_or_else', 'opt'): lambda p, b: 'Some(vx_v) => Ok(vx_v), None => Err(%s)' % b,
    ('unwrap_or_else', 'opt'): lambda p, b: 'Some(vx_v) => vx_v, None => %s' % b,
    ('unwrap_or', 'opt'): lambda p, b: 'Some(vx_v) => vx_v, None => %s' % b,
    ('unwrap_or', 'res'): lambda p, b: 'Ok(vx_v) => vx_v, Err(_) => %s' % b,
    ('context', 'res'): lambda p, b: 'Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(vx_error())',
    ('context', 'opt'): lambda p, b: 'Some(vx_v) => Ok(vx_v), None => Err(vx_error())',
    ('map_or_else', 'opt'): lambda p, b: 'None => %s, Some(%s) => %s' % (p[0], p[1], b),
    ('map_or_else', 'res'): lambda p, b: 'Err(%s) => %s, Ok(%s) => %s' % (p[0][0], p[0][1], p[1], b),
    ('is_some', 'opt'): lambda p, b: 'Some(_) => true, None => false',
}
def desugar_rule(txt, spec, notes, path):
    """spec: {method: kinds}; `E.m(|p| b)` becomes the match that defines m on Option or Result."""
    for m, kinds in spec.items():
        kinds = kinds.split(',')
        n = len(method_calls(lex(txt), m))
        if len(kinds) > 1 and len(kinds) != n: raise AnchorLost('%s: %d calls of %s, %d expected' % (path, n, m, len(kinds)))
    while True:
        toks = lex(txt)
        last = None
        for m, kinds in spec.items():
            kinds = kinds.split(',')
            cs = method_calls(toks, m)
            if cs:
                n = len(cs) - 1
                c = (cs[-1], m, kinds[n] if len(kinds) > 1 else kinds[0])
                if c[2] == 'no': raise AnchorLost('desugar order')
                if last is None or c[0] > last[0]: last = c
        if last is None: return txt
        (dot, op), m, kind = last
        cl = match_close(toks, op)
        a = expr_start(toks, dot)
        if m == 'map_or_else':
            k, d = op + 1, 0
            while k < cl and not (toks[k].s == ',' and d == 0):
                if toks[k].k == 'p' and toks[k].s in OPEN: d += 1
                elif toks[k].k == 'p' and toks[k].s in CLOSE: d -= 1
                k += 1
            c0, c1 = closure_of(txt, toks, op + 1, k), closure_of(txt, toks, k + 1, cl)
            if kind == 'res':
                if c0 is None: c0 = (['vx_x'], '%s(vx_x)' % txt[toks[op].b:toks[k].a].strip())
                if len(c0[0]) == 1: c0 = ([], (c0[0][0], c0[1]))
            if c0 is None or c1 is None or c0[0] or len(c1[0]) != 1: raise AnchorLost('%s: the arguments of %s' % (path, m))
            c = ([(c0[1], c1[0][0])], c1[1])
        else: c = closure_of(txt, toks, op + 1, cl)
        if c is None:
            arg = txt[toks[op].b:toks[cl].a].strip()
            if m in ('map', 'and_then', 'map_err'): c = (['vx_x'], '%s(vx_x)' % arg)
            else: c = ([], arg)
        p = c[0][0] if c[0] else ''
        recv = txt[toks[a].a:toks[dot-1].b]
        txt = txt[:toks[a].a] + '(match %s { %s })' % (recv, DESUGAR[(m, kind)](p, c[1])) + txt[toks[cl].b:]
        notes.append('.%s(..) of %s -> match' % (m, {'opt': 'Option', 'res': 'Result'}[kind]))

def chain_rule(txt, spec, notes, path):
    """spec: [(method, index or None, target name, signature or None)]: `E.m(args)` becomes `vx_m(E, args)`, a closure argument gets the signature."""
    for m, idx, tgt, sig in spec:
        toks = lex(txt)
        cs = method_calls(toks, m)
        if not cs: raise AnchorLost('%s: no call of %s' % (path, m))
        todo = [idx] if idx is not None else list(range(len(cs) - 1, -1, -1))
        for n in todo:
            toks = lex(txt)
            cs = method_calls(toks, m)
            if n >= len(cs): raise AnchorLost('%s: call %d of %s is gone' % (path, n, m))
            dot, op = cs[n]
            cl = match_close(toks, op)
            a = expr_start(toks, dot)
            args = txt[toks[op].b:toks[cl].a].strip()
            if sig:
                # the closure is the last argument
                st, d = op + 1, 0
                for k in range(op + 1, cl):
                    if toks[k].k == 'p' and toks[k].s in OPEN: d += 1
                    elif toks[k].k == 'p' and toks[k].s in CLOSE: d -= 1
                    elif toks[k].s == '|' and d == 0: break
                    elif toks[k].s == ',' and d == 0: st = k + 1
                first = txt[toks[op].b:toks[st-1].b] if st > op + 1 else ''
                c = closure_of(txt, toks, st, cl, True)
                if c is None: raise AnchorLost('%s: the argument of %s is not a closure' % (path, m))
                mm = re.match(r'\|([^|]*)\|(.*)$', sig, re.S)
                names = [x.split(':')[0].strip() for x in split_params(mm.group(1))]
                if len(names) != len(c[0]): raise AnchorLost('%s: closure of %s' % (path, m))
                args = first + '|%s| %s { %s %s }' % (mm.group(1), mm.group(2), ' '.join('let %s = %s;' % (q, x) for q, x in zip(c[0], names)), c[1])
            recv = txt[toks[a].a:toks[dot-1].b]
            if tgt[0] == '&': recv = '&' + recv
            txt = txt[:toks[a].a] + '%s(%s%s)' % (tgt.lstrip('&'), recv, ', ' + args if args else '') + txt[toks[cl].b:]
        notes.append('E.%s(..) -> %s(E, ..)%s' % (m, tgt, ', closure with a contract' if sig else ''))
    return txt

def flatten_rule(txt, names, notes):
    """f(g(x, a), b) in a statement  ==>  let vx_t0 = g(x, a); let vx_t1 = f(vx_t0, b); vx_t1"""
    toks = lex(txt)
    hit = next((i for i, t in enumerate(toks) if t.k == 'id' and t.s in names and toks[i+1].s == '('), None)
    if hit is None: raise AnchorLost('nothing to flatten')
    calls, i = [], hit
    while toks[i].k == 'id' and toks[i].s in names and toks[i+1].s == '(':
        calls.append(i); i += 2
    k, d = hit - 1, 0
    while k >= 0:
        x = toks[k]
        if x.k == 'p':
            if x.s in CLOSE:
                if x.s == '}' and d == 0: break
                d += 1
            elif x.s in OPEN:
                if d == 0: break
                d -= 1
            elif x.s == ';' and d == 0: break
        k -= 1
    lets, prev = '', None
    for n, c in enumerate(reversed(calls)):
        cl = match_close(toks, c + 1)
        if prev is None: e = txt[toks[c].a:toks[cl].b]
        else:
            inner = calls[len(calls) - n]
            icl = match_close(toks, inner + 1)
            e = txt[toks[c].a:toks[c+1].b] + prev + txt[toks[icl].b:toks[cl].b]
        prev = 'vx_t%d' % n
        lets += 'let %s = %s;\n' % (prev, e)
    st = toks[k+1].a
    cl = match_close(toks, hit + 1)
    notes.append('the calls of the chain are named')
    return txt[:st] + lets + txt[st:toks[hit].a] + prev + txt[toks[cl].b:]

def inline_rule(txt, name, notes, path):
    """let NAME = |p: T, ..| BODY;  .. NAME(e, ..)   ==>   { let (p, ..): (T, ..) = (e, ..); BODY }"""
    toks = lex(txt)
    d = next((i for i, t in enumerate(toks) if t.s == 'let' and name in (toks[i+1].s, toks[i+2].s)
              and '|' in (toks[i+3].s, toks[i+4].s)), None)
    if d is None: raise AnchorLost('%s: no closure %s' % (path, name))
    k = d
    while toks[k].s != '|': k += 1
    b0 = k
    k += 1
    while toks[k].s != '|': k += 1
    params = split_params(txt[toks[b0].b:toks[k].a])
    if any(':' not in p for p in params): raise AnchorLost('%s: the parameters of %s have no types' % (path, name))
    names = [p.split(':', 1)[0].strip() for p in params]
    types = [p.split(':', 1)[1].strip() for p in params]
    e, dep = k + 1, 0
    while not (toks[e].s == ';' and dep == 0):
        if toks[e].k == 'p' and toks[e].s in OPEN: dep += 1
        elif toks[e].k == 'p' and toks[e].s in CLOSE: dep -= 1
        e += 1
    for t in toks[k+1:e]:
        if t.s == '?' or (t.k == 'id' and t.s == 'return'): raise AnchorLost('a closure with an early return')
    body = txt[toks[k+1].a:toks[e-1].b]
    free = {t.s for t in toks[k+1:e] if t.k == 'id'} - set(names)
    calls = [i for i in range(e, len(toks) - 1) if toks[i].k == 'id' and toks[i].s == name and toks[i+1].s == '(' and toks[i-1].s != '.']
    if calls:
        for i in range(e, calls[-1]):
            if toks[i].s == 'let' and ({toks[i+1].s, toks[i+2].s} & free - {'mut'}): raise AnchorLost('%s: a name of %s is bound again' % (path, name))
    out, last = txt[:toks[d].a], toks[e].b
    if len(names) == 1: lhs, lty = names[0], types[0]
    else: lhs, lty = '(%s)' % ', '.join(names), '(%s)' % ', '.join(types)
    for i in calls:
        c = match_close(toks, i + 1)
        args = txt[toks[i+1].b:toks[c].a].strip().rstrip(',')
        out += txt[last:toks[i].a] + '{ let %s: %s = %s; %s }' % (lhs, lty, args if len(names) == 1 else '(%s)' % args, body)
        last = toks[c].b
    notes.append('the closure %s is inlined at its %d calls' % (name, len(calls)))
    return out + txt[last:]

def split_params(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([<': d += 1
        elif c in ')]>': d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    return out

def regex_rule(txt, f, notes):
    """lazy_static! { static ref RE: Regex = Regex::new(..).unwrap(); }  ==>  a predicate made from the literal"""
    while True:
        toks = lex(txt)
        i = next((i for i, t in enumerate(toks) if t.s == 'lazy_static' and toks[i+1].s == '!'), None)
        if i is None: return txt
        e = match_close(toks, i + 2)
        names, k = [], i + 3
        while k < e:
            if [t.s for t in toks[k:k+2]] != ['static', 'ref']: raise AnchorLost('%s: a static that is not a regular expression' % f.path)
            name, j = toks[k+2].s, k
            lits = []
            while toks[j].s != ';':
                if toks[j].k == 'str': lits.append(rx.unquote(toks[j].s))
                j += 1
            rest = ''.join(t.s for t in toks[k+3:j] if t.k != 'str')
            if not re.match(r':Regex=Regex::new\((concat!\(,*\))?\)\.unwrap\(\)$', rest) or not lits or (len(lits) > 1 and 'concat' not in rest):
                raise AnchorLost('%s: a regular expression out of reach' % f.path)
            fn = f.path.split('::')[-1] + ('' if not names else '_%d' % len(names))
            tr = rx.ends if 'regex:ends' in f.opts else rx.translate
            try: spec, strs = tr(fn, ''.join(lits))
            except rx.Unsupported as x: raise AnchorLost('%s: regular expression out of reach: %s' % (f.path, x))
            f.pre += spec + '\npub proof fn re_%s_strs()\n    ensures true%s\n{ %s }\n' % (fn, ''.join(', %s.len() == %d, %s' % (t, len(eval(t[:-1])), ', '.join('%s[%d] == %s' % (t, n, rx.ch(c)) for n, c in enumerate(eval(t[:-1])))) for t in strs), ' '.join('reveal_strlit(%s);' % t[:-1] for t in strs))
            if f.alts and not names:
                goal, body = f.alts
                ks = sorted(set(map(int, re.findall(r're_%s_a(\d+)\(' % fn, spec))))
                for n in ks:
                    f.pre += 'proof fn re_%s_alt%d(s: Seq<char>, i: int)\n    requires re_%s_a%d(s, i), 0 <= i <= s.len()\n    ensures %s\n{ %s }\n' % (fn, n, fn, n, goal, body)
                f.pre += 'proof fn re_%s_alts(s: Seq<char>, i: int)\n    requires re_%s_at(s, i), 0 <= i <= s.len()\n    ensures %s\n{ %s }\n' % (fn, fn, goal, ' '.join('if re_%s_a%d(s, i) { re_%s_alt%d(s, i); }' % (fn, n, fn, n) for n in ks) or body)
            names.append((name, fn))
            notes.append('the regular expression %s becomes the predicate re_%s' % (name, fn))
            k = j + 1
        q = toks[e].b
        if e + 1 < len(toks) and toks[e+1].s == ';': q = toks[e+1].b
        txt = txt[:toks[i].a] + ' '.join('proof { re_%s_strs(); assert(re_pos(0)); }' % n for _, n in names) + txt[q:]
        for name, fn in names:
            txt = re.sub(r'\b%s\s*\.\s*is_match\(\s*(\w+)\s*\)' % name, r'vx_is_match(\1, Ghost(re_%s(\1@)))' % fn, txt)
            txt = re.sub(r'\b%s\s*\.\s*(split|replace_all)\(\s*(\w+)\s*(,|\))' % name, r'vx_re_\1(\2, Ghost(|i: int| re_%s_end(\2@, i))\3' % fn, txt)
            if re.search(r'\b%s\b' % name, txt): raise AnchorLost('%s: %s is used in another way' % (f.path, name))

class Fn:
    def __init__(self, path, spec, src):
        self.path, self.spec, self.src = path, spec, src
        self.loops, self.ats, self.rewrites, self.rewrites2 = {}, [], [], []
        self.opts = set()
        self.desugar, self.chain, self.inline = {}, [], []
        self.alts = None

class Overlay:
    def __init__(self, path, repo):
        self.repo = repo
        self.entries = []   # ('verbatim', text) | ('type', src, name, attrs) | ('fn', Fn)
        self.rewrite_all = []
        self.types_rw = {}
        cur, src, text = None, None, []
        def flush():
            nonlocal cur, text
            t = '\n'.join(text)
            if cur is None: pass
            elif cur[0] == 'verbatim': self.entries.append(('verbatim', t))
            elif cur[0] == 'fn': cur[1].spec = t
            elif cur[0] == 'loop': cur[1].loops[cur[2]] = (cur[3], t)
            elif cur[0] == 'at': cur[1].ats.append((cur[2], t))
            elif cur[0] == 'alts': cur[1].alts = (cur[2], t)
            text = []
        fn = None
        def load(path):
            for line in open(path):
                line = line.rstrip('\n')
                m = re.match(r'\s*//@ include (\S+)', line)
                if m:
                    yield from load(os.path.join(os.path.dirname(path), m.group(1)))
                else: yield line
        for line in load(path):
            m = re.match(r'\s*//@ (\S+)\s*(.*)$', line)
            if not m:
                text.append(line); continue
            d, rest = m.group(1), m.group(2).strip()
            if d.startswith('rewrite'):
                mm = re.match(r'/(.*)/ => ?(.*)$', rest)
                rw = (mm.group(1), mm.group(2), d.endswith('?'))
                if d == 'rewrite-all': self.rewrite_all.append(rw)
                elif d == 'rewrite-type': self.types_rw.setdefault((src, self.last_type), []).append(rw)
                elif d.startswith('rewrite2'): fn.rewrites2.append(rw)
                else: fn.rewrites.append(rw)
                continue
            if d == 'desugar':
                for x in rest.split():
                    k, v = x.split('=')
                    fn.desugar[k] = v
                continue
            if d == 'inline':
                fn.inline.append(rest)
                continue
            if d == 'chain':
                mm = re.match(r'(\w+)(?:#(\d+))?(?:=(&?\w+))?\s*(\|.*)?$', rest)
                fn.chain.append((mm.group(1), int(mm.group(2)) if mm.group(2) else None, mm.group(3) or 'vx_' + mm.group(1), mm.group(4)))
                continue
            flush(); cur = None
            if d == 'source': src = rest
            elif d == 'verbatim': cur = ('verbatim',)
            elif d == 'type':
                p = rest.split(None, 1)
                self.entries.append(('type', src, p[0], p[1] if len(p) > 1 else ''))
                self.last_type = p[0]
            elif d == 'fn':
                p = rest.split()
                fn = Fn(p[0], '', src)
                fn.opts = set(p[1:])
                self.entries.append(('fn', fn)); cur = ('fn', fn)
            elif d == 'loop':
                p = rest.split()
                it = p[2] if len(p) > 2 and p[1] == 'iter' else None
                cur = ('loop', fn, int(p[0]), it)
            elif d == 'at': cur = ('at', fn, rest)
            elif d == 'alts': cur = ('alts', fn, rest)
            else: raise Exception('bad directive ' + line)
        flush()

    def emit(self, vacuity=False):
        """Returns (text, line map [(first line, last line, fn path)], info)"""
        srcs = {}
        out = ['#![feature(allocator_api)]', '#![allow(unused_imports, dead_code, unused_variables)]', 'use vstd::prelude::*;', 'verus! {', '#[verifier::external_body] pub fn vx_unreachable() -> ! requires false { unimplemented!() }']
        linemap, info = [], {'functions': [], 'rewrites': [], 'shapes': {}, 'verbatim': []}
        def cur_line(): return sum(x.count('\n') + 1 for x in out) + 1
        for e in self.entries:
            if e[0] == 'verbatim':
                info['verbatim'].append(e[1])
                out.append(e[1])
                continue
            src = e[1] if e[0] == 'type' else e[1].src
            if src not in srcs: srcs[src] = Source(os.path.join(self.repo, src))
            S = srcs[src]
            if e[0] == 'type':
                it = S.find(('struct', 'enum', 'type', 'const'), e[2])
                txt = strip_attrs(it.text())
                txt = re.sub(r'\bpub\s*(\([^)]*\))?', '', txt)
                for pat, rep, opt in self.rewrite_all + self.types_rw.get((e[1], e[2]), []):
                    txt = re.sub(pat, rep, txt)
                if it.kind in ('struct', 'enum'): txt = 'pub ' + txt
                if it.kind == 'struct':
                    h, br, t = txt.partition('{')
                    txt = h + re.sub(r'([{,]\s*)(\w+\s*:)(?!:)', r'\1pub \2', br + t)
                    if re.search(r'struct\s+\w+\s*\(', txt): txt = re.sub(r'([(,]\s*)(?=\S)', r'\1pub ', txt)
                if it.kind in ('type', 'const'): txt = 'pub ' + txt
                out.append(e[3] + '\n' + txt)
                info['shapes']['type ' + e[2]] = re.sub(r'\s+', ' ', txt)
                continue
            f = e[1]
            it = S.find(('fn',), f.path)
            raw = it.text()
            info['shapes'][f.path] = shape(raw)
            txt, notes = self.emit_fn(f, it, vacuity)
            if it.impl is not None:
                ty = it.impl['ty']
                txt = 'impl%s %s {\n%s\n}' % (it.impl['generics'], ty, txt)
            for pat, rep, opt in self.rewrite_all:
                txt = re.sub(pat, rep, txt)
            a = cur_line()
            if f.pre: out.append(f.pre)
            out.append(txt)
            linemap.append((a, cur_line() - 1, f.path))
            info['functions'].append({'path': f.path, 'file': src})
            info['rewrites'] += ['%s: %s' % (f.path, n) for n in notes]
        out.append('} // verus!\nfn main() {}\n')
        info['rewrites'] += ['all: /%s/ => %s' % (p, r) for p, r, _ in self.rewrite_all]
        return '\n'.join(out), linemap, info

    def emit_fn(self, f, it, vacuity):
        notes = []
        txt = strip_attrs(it.text())
        if it.impl and it.impl['trait']:
            notes.append('method of `%s` emitted as an inherent method' % re.sub(r'\s+', ' ', it.impl['trait']))
            for k, v in it.impl['assoc'].items():
                txt = re.sub(r'\bSelf\s*::\s*%s\b' % k, v, txt)
        f.pre = ''
        if 'regex' in f.opts or 'regex:ends' in f.opts: txt = regex_rule(txt, f, notes)
        t2 = drop_macros(txt)
        if t2 != txt: notes.append('tracing macros dropped')
        txt = t2
        t2 = replace_panics(txt)
        if t2 != txt: notes.append('panicking macros become calls to a function that requires false')
        txt = t2
        for n in f.inline: txt = inline_rule(txt, n, notes, f.path)
        for pat, rep, opt in f.rewrites:
            txt, n = re.subn(pat, rep, txt)
            if n == 0 and not opt: raise AnchorLost('%s: rewrite /%s/ matches nothing' % (f.path, pat))
            if n: notes.append('/%s/ => %s' % (pat, rep))
        if f.chain: txt = chain_rule(txt, f.chain, notes, f.path)
        if 'flatten' in f.opts: txt = flatten_rule(txt, {c[2].lstrip('&') for c in f.chain}, notes)
        for o in f.opts:
            if o.startswith('flatten:'): txt = flatten_rule(txt, set(o[8:].split(',')), notes)
        if f.desugar: txt = desugar_rule(txt, f.desugar, notes, f.path)
        txt = for_each_rule(txt, notes)
        for pat, rep, opt in f.rewrites2:
            txt, n = re.subn(pat, rep, txt)
            if n == 0 and not opt: raise AnchorLost('%s: rewrite /%s/ matches nothing' % (f.path, pat))
            if n: notes.append('/%s/ => %s' % (pat, rep))
        txt = enumerate_rule(txt, notes)
        txt = re.sub(r'^pub\s*(\([^)]*\))?\s*', '', txt)
        txt = 'pub ' + txt
        for o in f.opts:
            if o.startswith('as:'): txt = re.sub(r'\bfn\s+\w+', 'fn ' + o[3:], txt, count=1); notes.append('emitted as `%s`' % o[3:])
        if 'no-isolation' in f.opts: txt = '#[verifier::loop_isolation(false)] ' + txt
        if 'spinoff' in f.opts: txt = '#[verifier::spinoff_prover] #[verifier::rlimit(60)] ' + txt
        if 'complex-invariants' in f.opts: txt = '#[verifier::allow_complex_invariants] ' + txt
        toks = lex(txt)
        # signature
        i = next(k for k, t in enumerate(toks) if t.s == 'fn')
        k = i + 2
        if toks[k].s == '<': k = skip_generics(toks, k)
        pe = match_close(toks, k)
        k = pe + 1
        arrow = None
        if toks[k].s == '-' and toks[k+1].s == '>': arrow = k
        where = None
        while not (toks[k].k == 'p' and toks[k].s == '{'):
            if toks[k].s == 'where': where = k
            if toks[k].k == 'p' and toks[k].s in '([': k = match_close(toks, k)
            k += 1
        bo = k
        be = match_close(toks, bo)
        ins = []   # (pos, order, text)
        if arrow is not None:
            te = (where if where is not None else bo) - 1
            ins.append((toks[arrow+2].a, 0, '(r: '))
            ins.append((toks[te].b, 0, ')'))
        ins.append((toks[bo].a, 0, '\n' + f.spec + '\n'))
        start = ''
        tail_open = False
        lps = loops_of(toks, bo, be)
        for n, (itname, t) in f.loops.items():
            if n >= len(lps): raise AnchorLost('%s: loop %d is gone' % (f.path, n))
            kw, body = lps[n]
            ins.append((toks[body].a, 1, '\n' + t + '\n'))
            if itname:
                j = kw
                d = 0
                while not (toks[j].s == 'in' and toks[j].k == 'id'):
                    j += 1
                ins.append((toks[j].b, 0, ' %s:' % itname))
        if len(lps) != len(f.loops) and 'any-loops' not in f.opts:
            raise AnchorLost('%s: %d loops, %d loop contracts' % (f.path, len(lps), len(f.loops)))
        for where_, t in f.ats:
            w = where_.split()
            if w[0] == 'start': start += '\n' + t + '\n'
            elif w[0] == 'end': ins.append((toks[be].a, 0, '\n' + t + '\n'))
            elif w[0] == 'tail':
                # { BODY }  ==>  { let vx_r = { BODY }; GHOST vx_r }
                tail_open = True
                ins.append((toks[be].a, 0, '};\n' + t + '\nvx_r\n'))
            elif w[0] == 'loop':
                n = int(w[1])
                if n >= len(lps): raise AnchorLost('%s: loop %d is gone' % (f.path, n))
                body = lps[n][1]
                if w[2] == 'break':
                    be2 = match_close(toks, body)
                    inner = [(b2, match_close(toks, b2)) for kw2, b2 in lps if body < kw2 < be2]
                    for q in range(body, be2):
                        if toks[q].k == 'id' and toks[q].s == 'break' and not any(x < q < y for x, y in inner):
                            ins.append((toks[q].a, 0, '\n' + t + '\n'))
                elif w[2] == 'start': ins.append((toks[body].b, 0, '\n' + t + '\n'))
                else:
                    e2 = match_close(toks, body)
                    ins.append((toks[e2].a, 0, ('' if toks[e2-1].s in ';}{' else ';') + '\n' + t + '\n'))
            elif w[0] == 'after':
                body = lps[int(w[2])][1]
                ins.append((toks[match_close(toks, body)].b, 0, '\n' + t + '\n'))
            elif w[0] == 'match-all':
                for m in re.finditer(where_[10:], txt[toks[bo].a:]):
                    ins.append((toks[bo].a + m.start(), 0, '\n' + t + '\n'))
            elif w[0] == 'match':
                m = re.search(where_[6:], txt[toks[bo].a:])
                if not m: raise AnchorLost('%s: /%s/ matches nothing' % (f.path, where_[6:]))
                ins.append((toks[bo].a + m.start(), 0, '\n' + t + '\n'))
            elif w[0] == 'before':
                kw = lps[int(w[2])][0]
                ins.append((toks[kw].a, 0, '\n' + t + '\n'))
        if vacuity:
            # after the `hide(..)` headers, which have to come first
            h = re.match(r'(\s*hide\([^()]*\);)*', start).end()
            start = start[:h] + '\nassert(false); // vacuity probe\n' + start[h:]
        if tail_open: start += '\nlet vx_r = {\n'
        if start: ins.append((toks[bo].b, 0, start))
        for pos, order, t in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True):
            txt = txt[:pos] + t + txt[pos:]
        return txt, notes

if __name__ == '__main__':
    o = Overlay(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '/repo')
    t, lm, info = o.emit()
    print(t)
