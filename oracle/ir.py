"""Reading generated LLVM IR: an interpreter for the few instructions in it."""
import re, struct
from cas import *

REG = r'%"[^"]*"'
OPND = rf'({REG}|0x[0-9a-fA-F]+|-?\d+\.\d+(?:e[+-]?\d+)?)'
DECL = {'llvm.pow.f64': 2, 'llvm.sin.f64': 1, 'llvm.cos.f64': 1}


class Code:
    """params, instructions [(reg, op, operands)], ret, stores"""

    def __init__(self, text, matrix):
        m = re.search(r'define (double|void) @"jit_func1"\(([^)]*)\)\s*\{(.*)\}\s*$', text, re.S)
        want(m is not None, f'no definition of jit_func1 in {text[-300:]!r}')
        want(m.group(1) == ('void' if matrix else 'double'), f'return type {m.group(1)}')
        head = text[:m.start()]
        decl = {n: a.count('double') for n, a in re.findall(r'declare double\s+@(\S+?)\(([^)]*)\)', head)}
        want(all(DECL.get(n) == k for n, k in decl.items()), f'declarations {decl}')
        want('define' not in head, 'more than one function')
        ps = [p.strip() for p in m.group(2).split(',') if p.strip()]
        if matrix:
            want(ps and re.fullmatch(rf'double\* {REG}', ps[0]) is not None, f'first parameter {ps[:1]}')
            self.out = ps.pop(0).split()[1]
        self.params = []
        for p in ps:
            g = re.fullmatch(rf'double ({REG})', p)
            want(g is not None, f'parameter {p!r}')
            self.params.append(g.group(1))
        defined = set(self.params) | ({self.out} if matrix else set())
        want(len(defined) == len(self.params) + matrix, f'parameters {self.params}')
        ptrs, self.ins, self.ret, self.stores = {}, [], None, []

        def use(x):
            want(not x.startswith('%') or x in defined and x not in ptrs and not (matrix and x == self.out), f'{x} is used but is not a value defined before')
            return x

        for line in m.group(3).strip().split('\n'):
            line = line.strip()
            if not line:
                continue
            want(self.ret is None, f'{line!r} after the return')
            g = re.fullmatch(rf'({REG}) = (fadd|fmul|fsub|fdiv) double {OPND}, {OPND}', line)
            if g:
                r, op, ops = g.group(1), g.group(2), [use(g.group(3)), use(g.group(4))]
                want(r not in defined, f'{r} is defined twice')
                defined.add(r)
                self.ins.append((r, op, ops))
                continue
            g = re.fullmatch(rf'({REG}) = (?:tail )?call double @(\S+?)\((.*)\)', line)
            if g:
                r, op = g.group(1), g.group(2)
                ops = [re.fullmatch(rf'double {OPND}', a.strip()) for a in g.group(3).split(', ')]
                want(all(ops) and decl.get(op) == len(ops), f'call {line!r}')
                ops = [use(o.group(1)) for o in ops]
                want(r not in defined, f'{r} is defined twice')
                defined.add(r)
                self.ins.append((r, op, ops))
                continue
            g = re.fullmatch(rf'({REG}) = getelementptr (?:inbounds )?double, double\* ({REG}), i(?:32|64) (-?\d+)', line)
            if g and matrix:
                want(g.group(2) == self.out and g.group(1) not in defined, f'{line!r}')
                defined.add(g.group(1))
                ptrs[g.group(1)] = int(g.group(3))
                continue
            g = re.fullmatch(rf'store double {OPND}, double\* ({REG})', line)
            if g and matrix:
                p = g.group(2)
                want(p in ptrs or p == self.out, f'{line!r} stores to an unknown place')
                self.stores.append((ptrs.get(p, 0), use(g.group(1)), len(self.ins)))
                continue
            g = re.fullmatch(rf'ret double {OPND}', line)
            if g and not matrix:
                self.ret = use(g.group(1))
                continue
            if line == 'ret void' and matrix:
                self.ret = 'void'
                continue
            raise Fail(f'unknown instruction {line!r}')
        want(self.ret is not None, 'no return')

    def run(self, vals, hi=True):
        """Values of all registers (60 digits)."""
        env = dict(zip(self.params, [M(v) for v in vals]))

        def v(x):
            if x.startswith('%'):
                return env[x]
            if x.startswith('0x'):
                return M(struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0])
            return M(x)
        for r, op, ops in self.ins:
            a = [v(o) for o in ops]
            if op == 'fadd':
                env[r] = a[0] + a[1]
            elif op == 'fsub':
                env[r] = a[0] - a[1]
            elif op == 'fmul':
                env[r] = a[0] * a[1]
            elif op == 'fdiv':
                if a[1] == 0:
                    raise NoValue
                env[r] = a[0] / a[1]
            else:
                env[r] = globals()['op']({'llvm.pow.f64': 'pow', 'llvm.sin.f64': 'sin', 'llvm.cos.f64': 'cos'}[op], a)
            if abs(env[r]) > M(10) ** 200:
                raise NoValue
        self.env = env
        return v


def supported(t, params, top=None):
    """Only the five heads (and `top`, at the top), parameters and integers."""
    for u in parts(t):
        if not u.children:
            if u not in params and u.value.atom_type is not types()['I']:
                return False
            continue
        h = u.children[0]
        if h.children or h.value.atom_type is not types()['F'] or h.value.value not in ('Add', 'Mul', 'pow', 'sin', 'cos'):
            return False
    return True


def wellformed(t):
    for u in parts(t):
        if u.children and not u.children[0].children:
            n, k = u.children[0].value.value, len(u.children) - 1
            if n == 'pow' and k != 2 or n in ('sin', 'cos') and k != 1 or n in ('Add', 'Mul') and k < 1:
                return False
        elif not u.children and isinstance(u.value.value, int) and abs(u.value.value) > 2 ** 1000:
            return False
    return True


def rounded(t, vals):
    """Value with error bound of the expression with double constants, in double arithmetic."""
    out = {}
    eps = M(2) ** -51
    for u in parts(t):
        if not u.children:
            out[u] = (M(float(u.value.value)) if u not in vals else M(vals[u]), M(0))
            continue
        h, a = u.children[0].value.value, [out[c] for c in u.children[1:]]
        v = [x for x, _ in a]
        r = op(h, v)
        if h == 'Add':
            e = sum(x for _, x in a) + eps * len(a) * sum(abs(x) for x in v)
        elif h == 'Mul':
            e, acc = a[0][1], abs(v[0])
            for x, d in a[1:]:
                e = e * abs(x) + acc * d + e * d + eps * acc * abs(x)
                acc *= abs(x)
        elif h == 'pow':
            (b, eb), (p, ep) = a
            if eb > abs(b) / 100 or ep and b <= 0:
                raise NoValue
            e = abs(r) * (abs(p) * eb / abs(b) * 2 if b else M(0)) + (abs(r) * abs(mpmath.log(b)) * ep * 2 if ep else 0) + 8 * eps * abs(r)
        else:
            e = a[0][1] + 8 * eps
        if abs(r) > M(10) ** 200 or r and abs(r) < M(10) ** -200:
            raise NoValue
        out[u] = (r, e + M(10) ** -290)
    return out[t]


def near(got, t, vals):
    r, e = rounded(t, vals)
    if e > M(10) ** 100:
        return True
    return abs(M(got) - r) <= 4 * e + M(10) ** -280 if got == got and abs(got) != float('inf') else False


POINTS = [[0.5, 1.25, 2.0], [1.75, -0.625, 3.0], [3.0, 0.1, 0.7], [-1.5, 2.0, 0.3], [1.0, 1.0, 1.0], [0.0, 0.0, 0.0], [2, 3, 5]]
