"""Closure of sign atoms under ordered-field arithmetic (linear in monomials, with min/max/abs cases).

Used to discharge an obligation whose normal form is not syntactically FALSE: every path of the term to TRUE must contain a
contradictory set of sign atoms."""
from fractions import Fraction
from . import terms as T


class Limit(Exception):
    pass


def subst(p, atom, o):
    out = T.ZERO
    for m, c in p.terms.items():
        e = dict(m).get(atom.id, 0)
        rest = T.Num({tuple((k, x) for k, x in m if k != atom.id): c})
        if e:
            rest = T.mul(rest, T.power(o, e) if e > 0 else T.inverse(T.power(o, -e)))
        out = T.add(out, rest)
    return out


def _mm_atoms(polys):
    for p in polys:
        for a in p.atoms():
            if a.op in ('min', 'max', 'abs'):
                return a
    return None


def fm(cons, limit=1500):
    """Fourier-Motzkin on [(coef dict mono->Fraction, const, strict)] meaning sum + const (<|<=) 0; True if infeasible"""
    cons = list(cons)
    seen = set()
    while True:
        vs = {}
        for c, k, s in cons:
            for m, x in c.items():
                d = vs.setdefault(m, [0, 0])
                d[0 if x > 0 else 1] += 1
        for c, k, s in cons:
            if not c and (k > 0 or (k == 0 and s)):
                return True
        cons = [x for x in cons if x[0]]
        if not cons:
            return False
        m = min(vs, key=lambda v: vs[v][0] * vs[v][1])
        up = [x for x in cons if x[0].get(m, 0) > 0]
        lo = [x for x in cons if x[0].get(m, 0) < 0]
        new = [x for x in cons if m not in x[0]]
        for a, ka, sa in up:
            for b, kb, sb in lo:
                fa, fb = -b[m], a[m]
                d = {}
                for mm, x in a.items():
                    d[mm] = d.get(mm, 0) + x * fa
                for mm, x in b.items():
                    d[mm] = d.get(mm, 0) + x * fb
                d = {mm: x for mm, x in d.items() if x}
                new.append((d, ka * fa + kb * fb, sa or sb))
        # normalise and deduplicate
        out = {}
        for d, k, s in new:
            if d:
                f = abs(d[min(d)])
                d = {mm: x / f for mm, x in d.items()}
                k = k / f
            key = frozenset(d.items())
            o = out.get(key)
            if o is None or k > o[1] or (k == o[1] and s):
                out[key] = (d, k, s)
        cons = list(out.values())
        if len(cons) > limit:
            raise Limit()


def _round_cuts(at, m, rows):
    """bounds of a rounded quantity implied by constant bounds of the quantity itself"""
    import math
    a = dict(at.args[0].terms)
    a0 = a.pop((), Fraction(0))
    if not a:
        return []
    k0 = next(iter(a))
    out = []
    for c, k, strict in rows:
        if len(c) != len(a) or set(c) != set(a):
            continue
        lam = c[k0] / a[k0]
        if any(c[x] != lam * a[x] for x in a):
            continue
        b = a0 - k / lam
        whole = b.denominator == 1
        if lam > 0:             # quantity <= b
            v = math.ceil(b) if at.op == 'ceil' else (b - 1 if strict and whole else math.floor(b))
            out.append(({m: Fraction(1)}, Fraction(-v), False))
        else:                   # quantity >= b
            v = math.floor(b) if at.op == 'floor' else (b + 1 if strict and whole else math.ceil(b))
            out.append(({m: Fraction(-1)}, Fraction(v), False))
    return out


def _row(p, strict):
    d = dict(p.terms)
    k = d.pop((), Fraction(0))
    return d, k, strict


def _signs(lits):
    """known strict signs of single atoms"""
    sg = {}
    for p, op in lits:
        if len(p.terms) == 1 and op == '<':
            (m, c), = p.terms.items()
            if len(m) == 1 and m[0][1] % 2:
                sg[m[0][0]] = -1 if c > 0 else 1
    roots = {a for p, op in lits for a in p.atoms() if a.op == 'sqrt' and isinstance(a.args[0], T.Num)}
    for a in roots:
        q = T.neg(a.args[0])
        if a.id not in sg and (_polysign(a.args[0], sg) > 0 or len(q.terms) <= 8 and (
                any(op == '<' and _scaled(p, q) for p, op in lits) or _implied(q, lits, a))):
            sg[a.id] = 1
    return sg


def _implied(q, lits, a):
    """q < 0 follows from the literals that do not mention the root itself (products of pairs included)"""
    if not any(len(p.terms) == 1 and a in p.atoms() for p, op in lits):
        return False
    ids = {x.id for x in q.atoms()}
    rel = [(p, op) for p, op in lits if op != '!=' and {x.id for x in p.atoms()} <= ids and p.const is None]
    if not rel or len(rel) > 8:
        return False
    rows = [_row(T.neg(q), False)]
    monos = set(q.terms) | {()}
    for i, (p, op) in enumerate(rel):
        rows.append(_row(p, op == '<'))
        for p2, op2 in rel[i:]:
            r = T.mul(p, p2)
            if op != '=' and op2 != '=' and set(r.terms) <= monos:
                rows.append(_row(T.neg(r), op == '<' and op2 == '<'))
    try:
        return fm(rows)
    except (Limit, T.Blowup):
        return False


def _uncontent(lits):
    """divide out common monomials of known sign"""
    sg = None
    out = []
    for p, op in lits:
        if len(p.terms) > 1:
            c, m, q = T.primitive(p)
            if m and len(m) <= 6:
                if sg is None:
                    sg = _signs(lits)
                s = 1 if c > 0 else -1
                for k, e in m:
                    z, strict = _atomsign(k, sg)
                    if not z or not strict:
                        break
                    if e % 2 and z < 0:
                        s = -s
                else:
                    p = q if s > 0 else T.neg(q)
        out.append((p, op))
    return out


_invsign = {}


def _atomsign(k, sg):
    if k in sg:
        return sg[k], True
    at = T.Atom._all[k]
    if at.op == 'exp' or (at.op == 'sym' and at.args[0] in T.NONNEG_SYMS):
        return 1, True
    if at.op in T.NONNEG_OPS or (at.op == 'sym' and at.args[0] == 'inf'):
        return 1, False
    if at.op == 'inv' and isinstance(at.args[0], T.Num):
        if T.nonneg(at.args[0]):
            return 1, True
        if T.nonneg(T.neg(at.args[0])):
            return -1, True
        key = (k, frozenset(sg.items()))
        if key not in _invsign:
            _invsign[key] = 0           # cut cycles
            _invsign[key] = _polysign(at.args[0], sg)
        return _invsign[key], True
    return 0, False


def sos(q, sg, depth=0):
    """(q >= 0, q > 0) by completing squares over monomials of known sign"""
    ok, strict = True, False
    for m, c in q.terms.items():
        s, st = 1, True
        for k, e in m:
            z, b = _atomsign(k, sg)
            if e % 2:
                s *= z
            st = st and b
        if s * c <= 0:
            ok = False
            break
        strict = strict or st
    if ok:
        return True, strict
    if depth > 6 or not 3 <= len(q.terms) <= 60:
        return False, False
    deg = {}
    for m in q.terms:
        for k, e in m:
            lo, hi, n = deg.get(k, (0, 0, 0))
            deg[k] = (min(lo, e), max(hi, e), n + (e == 2))
    for k in sorted(deg):
        if deg[k] != (0, 2, 1):
            continue
        a, b, c = {}, {}, {}
        for m, v in q.terms.items():
            e = dict(m).get(k, 0)
            (c, b, a)[e][tuple(x for x in m if x[0] != k)] = v
        if not b:
            continue
        (am, av), = a.items()
        if av <= 0 or any(e % 2 and _atomsign(j, sg)[0] <= 0 for j, e in am):
            continue
        B = T.Num(b)
        inv = T.Num({tuple((j, -e) for j, e in am): Fraction(1, 4) / av})
        r = sos(T.sub(T.Num(c), T.mul(T.mul(B, B), inv)), sg, depth + 1)
        if r[0]:
            return r
        break
    return False, False


def _polysign(q, sg):
    """sign of a polynomial all of whose terms have the same known sign, or that is a sum of squares"""
    z = _polysign1(q, sg)
    if z or not 3 <= len(q.terms) <= 60:
        return z
    if sos(q, sg)[1]:
        return 1
    if sos(T.neg(q), sg)[1]:
        return -1
    return 0


def _polysign1(q, sg):
    if len(q.terms) > 12:
        return 0
    z, strict = None, False
    for m, c in q.terms.items():
        s = 1 if c > 0 else -1
        st = True
        for k, e in m:
            a, b = _atomsign(k, sg)
            if e % 2:
                if not a:
                    return 0
                s *= a
            st = st and b
        if z is not None and s != z:
            return 0
        z = s
        strict = strict or st
    return z if strict else 0


def _clear(lits):
    """multiply out denominators whose sign is known"""
    if not any(e < 0 or T.Atom._all[k].op == 'inv' for p, op in lits for m in p.terms for k, e in m):
        return lits
    sg = _signs(lits)
    out = []
    for p, op in lits:
        for rnd in range(4):
            f = None
            for m in p.terms:
                for k, e in m:
                    at = T.Atom._all[k]
                    if e < 0:
                        z, strict = _atomsign(k, sg)
                        if z:
                            f = (T.power(T.from_atom(at), -e), z if e % 2 else 1)
                        elif e % 2 == 0:
                            f = (T.power(T.from_atom(at), -e), 1)
                    elif at.op == 'inv' and isinstance(at.args[0], T.Num) and len(at.args[0].terms) <= 60:
                        q = at.args[0]
                        z = 1 if T.nonneg(q) else (-1 if T.nonneg(T.neg(q)) else _polysign(q, sg))
                        if not z:
                            for l, o in lits:
                                if o in ('<', '<=') and l == T.neg(q):
                                    z = 1
                                elif o in ('<', '<=') and l == q:
                                    z = -1
                        if z:
                            f = (T.power(q, e), z if e % 2 else 1)
                    if f:
                        break
                if f:
                    break
            if not f:
                break
            try:
                p2 = T.mul(p, f[0])
            except T.Blowup:
                break
            if len(p2.terms) > 120:
                break
            if f[1] < 0 and op in ('<', '<='):
                p2 = T.neg(p2)
            p = p2
        out.append((p, op))
    return out


def _weak(lits):
    """known non-strict signs of single atoms"""
    weak = {}
    for p, op in lits:
        if op == '<=' and len(p.terms) == 1:
            (m, c), = p.terms.items()
            if len(m) == 1 and m[0][1] == 1:
                weak[m[0][0]] = -1 if c > 0 else 1
    return weak


def _onesided(lits):
    """a literal p < 0 or p <= 0 all of whose terms are known to be positive"""
    if not any(len(p.terms) > 1 and any(len(m) > 1 for m in p.terms) for p, op in lits):
        return False
    weak, sg = _weak(lits), _signs(lits)
    if not weak:
        return False
    for p, op in lits:
        if op not in ('<', '<='):
            continue
        strict, ok = op == '<', True
        for m, c in p.terms.items():
            s, st = (1 if c > 0 else -1), True
            for k, e in m:
                z, zs = _atomsign(k, sg)
                if e % 2 == 0:
                    st = st and (zs or e < 0)
                    continue
                if z == 0:
                    z, zs = weak.get(k, 0), False
                s *= z
                st = st and (zs or e < 0)
            if s <= 0:
                ok = False
                break
            strict = strict or st
        if ok and strict:
            return True
    return False


def conj_unsat(lits, depth=0):
    """lits: [(Num, op)], op in '<', '<=', '=', '!='"""
    for p, op in lits:
        c = p.const
        if c is not None:
            if not {'<': c < 0, '<=': c <= 0, '=': c == 0, '!=': c != 0}[op]:
                return True
    lits = [(p, op) for p, op in lits if p.const is None]
    a = _mm_atoms([p for p, op in lits])
    if a is not None:
        if depth > 9:
            raise Limit()
        ops = [a.args[0], T.neg(a.args[0])] if a.op == 'abs' else list(a.args[0])
        if not all(isinstance(o, T.Num) for o in ops):
            raise Limit()
        isdata = a.op == 'min'
        for o in ops:
            extra = []
            for q in ops:
                if q is not o:
                    extra.append((T.sub(o, q) if isdata else T.sub(q, o), '<='))
            if not conj_unsat([(subst(p, a, o), op) for p, op in lits] + extra, depth + 1):
                return False
        return True
    if _onesided(lits):
        return True
    lits = _uncontent(_clear(lits))
    if any(3 <= len(p.terms) <= 60 for p, op in lits):
        sg = _signs(lits)
        for p, op in lits:
            if 3 <= len(p.terms) <= 60 and op != '!=':
                ok, strict = sos(p, sg)
                if strict or ok and op == '<':
                    return True
                if op == '=' and sos(T.neg(p), sg)[1]:
                    return True
    ne = [x for x in lits if x[1] == '!=']
    base = [x for x in lits if x[1] != '!=']
    rows = []
    monos = set()
    for p, op in base:
        rows.append(_row(p, op == '<'))
        if op == '=':
            rows.append(_row(T.neg(p), False))
    for p, op in lits:
        monos |= set(p.terms)
    # products of known non-negative quantities that speak about the same monomials
    nn = [(T.neg(p), op == '<') for p, op in base if op in ('<', '<=')]
    for k in sorted({k for m in monos for k, e in m if len(m) > 1}):
        at = T.Atom._all[k]
        if at.op == 'sqrt' and len(nn) <= 14:
            nn.append((T.from_atom(at), False))
    if len(nn) <= 14:
        for i in range(len(nn)):
            for j in range(i, len(nn)):
                q = T.mul(nn[i][0], nn[j][0])
                if set(q.terms) <= monos | {()}:
                    rows.append(_row(T.neg(q), nn[i][1] and nn[j][1]))
    sg = _signs(base)
    pi = next(iter(T.sym('pi').terms))
    for m in list(monos):
        if len(m) == 1 and m[0][1] == 1:
            at = T.Atom._all[m[0][0]]
            if at.op in ('arctan2', 'arccos', 'arcsin', 'arctan'):
                hi, lo = {'arctan2': (1, -1), 'arccos': (1, 0), 'arcsin': (Fraction(1, 2), Fraction(-1, 2)),
                          'arctan': (Fraction(1, 2), Fraction(-1, 2))}[at.op]
                rows.append(({m: Fraction(1), pi: Fraction(-hi)}, Fraction(0), False))
                rows.append(({m: Fraction(-1), pi: Fraction(lo)}, Fraction(0), False) if lo else ({m: Fraction(-1)}, Fraction(0), False))
                monos.add(pi)
            elif at.op == 'draw':
                rows.append(({m: Fraction(1)}, Fraction(-1), True))
                rows.append(({m: Fraction(-1)}, Fraction(0), False))
            elif at.op in ('floor', 'ceil') and isinstance(at.args[0], T.Num):
                d = T.sub(at.args[0], T.from_atom(at))
                if at.op == 'ceil':
                    d = T.neg(d)
                if set(d.terms) <= monos | {()}:
                    rows.append(_row(T.neg(d), False))
                    rows.append(_row(T.sub(d, T.ONE), True))
                rows.extend(_round_cuts(at, m, rows))
            elif at.op == 'round' and len(at.args) == 1 and isinstance(at.args[0], T.Num):
                d = T.sub(at.args[0], T.from_atom(at))
                if set(d.terms) <= monos | {()}:
                    rows.append(_row(T.sub(d, T.num(Fraction(1, 2))), False))
                    rows.append(_row(T.sub(T.neg(d), T.num(Fraction(1, 2))), False))
            elif at.op in ('sin', 'cos'):
                rows.append(({m: Fraction(1)}, Fraction(-1), False))
                rows.append(({m: Fraction(-1)}, Fraction(-1), False))
    if pi in monos:
        rows.append(({pi: Fraction(-1)}, Fraction(314, 100), True))
        rows.append(({pi: Fraction(1)}, Fraction(-315, 100), True))
    weak = _weak(base)
    for m in monos:
        if not m:
            continue
        s, strict, known = 1, True, True
        for k, e in m:
            if e % 2 == 0:
                z, zs = _atomsign(k, sg)
                strict = strict and (zs or e < 0)
                continue
            z, zs = _atomsign(k, sg)
            if z == 0:
                z = weak.get(k, 0)
            if z == 0:
                known = False
                break
            s *= z
            strict = strict and (zs or e < 0)
        if known:
            rows.append(({m: Fraction(-s)}, Fraction(0), strict))
    if fm(rows):
        return True
    if ne and depth < 12:
        p, _ = ne[0]
        rest = base + ne[1:]
        return conj_unsat(rest + [(p, '<')], depth + 3) and conj_unsat(rest + [(T.neg(p), '<')], depth + 3)
    return False


def unsat(c, maxpaths=4000):
    """True when every path of the boolean term to TRUE is contradictory"""
    cnt = [0]
    flat = [0]

    def lit(b, val):
        q = b.args[0]
        if b.op == 'lt0':
            return (q, '<') if val else (T.neg(q), '<=')
        if b.op == 'le0':
            return (q, '<=') if val else (T.neg(q), '<')
        if b.op == 'eq0':
            return (q, '=') if val else (q, '!=')
        return None

    def go(v, acc):
        if v is T.FALSE:
            return True
        flat[0] += 1
        if flat[0] > maxpaths * 10:
            raise Limit()
        # prune contradictory prefixes
        if acc and isinstance(v, T.Ite) and len(acc) % 2 == 0 or v is T.TRUE:
            cnt[0] += 1
            if cnt[0] > maxpaths:
                raise Limit()
            try:
                if conj_unsat([l for l in acc if l is not None]):
                    return True
            except (Limit, T.Blowup):
                if v is T.TRUE:
                    raise
        if v is T.TRUE:
            return False
        b = T.BVar._all[v.var]
        return go(v.hi, acc + [lit(b, True)]) and go(v.lo, acc + [lit(b, False)])
    try:
        if _refute(c, lit):
            return True
        return go(c, [])
    except (Limit, T.Blowup, RecursionError):
        return False


def _refute(c, lit, rounds=400):
    """lazily: refute one path, generalise the conflict to a clause, and cut it from the boolean term"""
    c = T.band(c, T.theory(T.bvars(c)))
    for _ in range(rounds):
        if c is T.FALSE:
            return True
        path = []
        v = c
        while v is not T.TRUE:
            if not isinstance(v, T.Ite):
                return False
            up = v.hi is not T.FALSE and (v.lo is T.FALSE or v.hi is T.TRUE or v.lo is not T.TRUE)
            path.append((v.var, up))
            v = v.hi if up else v.lo
        lits = [(k, up, lit(T.BVar._all[k], up)) for k, up in path]
        lits = [x for x in lits if x[2] is not None]
        try:
            if not lits or not conj_unsat([l for _, _, l in lits]):
                return False
            # shrink to a small conflict
            step = len(lits) // 2
            core = lits
            while step >= 1:
                i = 0
                while i < len(core):
                    rest = core[:i] + core[i + step:]
                    if rest and conj_unsat([l for _, _, l in rest]):
                        core = rest
                    else:
                        i += step
                step //= 2
        except (Limit, T.Blowup):
            return False
        clause = T.FALSE
        for k, up, _ in core:
            x = T.bvar_node(k)
            clause = T.bor(clause, T.bnot(x) if up else x)
        c = T.band(c, clause)
        if T.size(c) > 60000 if hasattr(T, 'size') else False:
            return False
    return False


_setmemo = {}


def literals(c):
    out = []
    for k, v in T.necessary(c).items():
        b = T.BVar._all[k]
        if b.op in ('lt0', 'le0', 'eq0') and isinstance(b.args[0], T.Num):
            q = b.args[0]
            if b.op == 'lt0':
                out.append((q, '<') if v else (T.neg(q), '<='))
            elif b.op == 'le0':
                out.append((q, '<=') if v else (T.neg(q), '<'))
            elif v:
                out.append((q, '='))
    return out


def settle(p, c):
    """resolve min/max/abs atoms of the polynomial p whose operands are ordered by the literals of c"""
    if not isinstance(p, T.Num) or p.const is not None or p.spec:
        return p
    lits = None
    for rnd in range(6):
        todo = [a for a in p.atoms() if a.op in ('min', 'max', 'abs')]
        changed = False
        for a in todo:
            k = (a.id, c)
            r = _setmemo.get(k, 0)
            if r == 0:
                if lits is None:
                    every = literals(c)
                    lits = [l for l in every if len(l[0].terms) <= 6]
                r = _settle_exact(a, every)
                if r is None:
                    r = _settle_atom(a, lits)
                _setmemo[k] = r
            if r is not None:
                p = subst(p, a, r)
                changed = True
                break
        if not changed:
            return p
    return p


def _scaled(p, q):
    """k > 0 with p == k * q"""
    if len(p.terms) != len(q.terms) or not p.terms:
        return False
    k = None
    for m, c in p.terms.items():
        d = q.terms.get(m)
        if d is None:
            return False
        if k is None:
            k = c / d
        elif c != k * d:
            return False
    return k > 0


def _settle_exact(a, lits):
    """an operand order stated literally by the path condition"""
    ops = [a.args[0], T.neg(a.args[0])] if a.op == 'abs' else list(a.args[0])
    if len(ops) != 2 or not all(isinstance(o, T.Num) and not o.spec for o in ops):
        return None
    d = a.args[0] if a.op == 'abs' else T.sub(ops[0], ops[1])
    n = T.neg(d)
    for p, op in lits:
        if op in ('<', '<=', '=') and len(p.terms) == len(d.terms):
            if _scaled(p, d):       # ops[0] <= ops[1]
                return ops[1] if a.op != 'min' else ops[0]
            if _scaled(p, n):
                return ops[0] if a.op != 'min' else ops[1]
    return None


def _settle_atom(a, lits):
    ops = [a.args[0], T.neg(a.args[0])] if a.op == 'abs' else list(a.args[0])
    if len(ops) > 4 or not all(isinstance(o, T.Num) and not o.spec and len(o.terms) <= 6 for o in ops):
        return None
    lo = a.op == 'min'
    ids = set()

    def deep(o):
        for x in o.atoms():
            ids.add(x.id)
            if x.op in ('min', 'max', 'abs'):
                for y in ([x.args[0]] if x.op == 'abs' else x.args[0]):
                    if isinstance(y, T.Num):
                        deep(y)
    for o in ops:
        deep(o)
    # literals connected to the operands
    rel, prev = [], -1
    while len(rel) != prev:
        prev = len(rel)
        rel = [l for l in lits if ids & {x.id for x in l[0].atoms()}]
        if len(rel) > 24:
            break
        for l in rel:
            deep(l[0])
    rel = rel[:24]
    keep = list(ops)
    for o in list(ops):
        if len(keep) == 1:
            break
        for q in keep:
            if q is o:
                continue
            d = T.sub(o, q) if lo else T.sub(q, o)     # o redundant if o - q >= 0 (min)
            try:
                if conj_unsat(rel + [(d, '<')]):
                    keep.remove(o)
                    break
            except (Limit, T.Blowup):
                pass
    if len(keep) == len(ops):
        return None
    if len(keep) == 1:
        return keep[0]
    return (T.vmin if lo else T.vmax)(*keep)
