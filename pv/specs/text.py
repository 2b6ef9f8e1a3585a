"""Printed forms (C19): the shipped text and LaTeX rules, entry by entry, and the
reading of the text as Python."""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from ..types import StrV
from .. import smt
from .arith import fun, integer, atom_of, ET, m as mods

SS = SeqTh(StrS)
join = Function('join', StrS, SS.S, StrS)
strint = Function('str:int', I, StrS)
strtree = Function(f'str:{TreeS}', TreeS, StrS)
HEADS = ('Add', 'Mul', 'Pow', 'sin', 'cos', 'List', 'f', 'any')


def text(E, *parts):
    return E.term(E.mkstr(list(parts)), STR)


def joined(E, sep, s):
    return text(E, join(E.strconst(sep), s))


def pattern(E, which, kind, h, s, n):
    """The specified form of a call of head h; s: arguments (a sequence term, or n strings)."""
    sepd = lambda sep: [join(E.strconst(sep), s)] if n is None else [p for i, x in enumerate(s) for p in ([sep] if i else []) + [x]]
    if kind == 'Add':
        return text(E, '(', *sepd(' + '), ')')
    if kind == 'Mul':
        return text(E, '(', *sepd('*' if which == 'repr' else r' \times '), ')')
    if kind == 'Pow':
        return text(E, s[0], '**', s[1]) if which == 'repr' else text(E, s[0], '^{', s[1], '}')
    if kind in ('sin', 'cos') and which == 'latex':
        return text(E, '\\' + kind + '(', s[0], ')')
    return text(E, strtree(h), '(', *sepd(', '), ')')


class TextRules(CheckTask):
    """eval_repr / eval_latex: what each head and atom prints as."""
    name = 'printing rules'
    variants = tuple(f'{w} {k}' for w in ('repr', 'latex') for k in ('Integer', 'Symbol', 'Function'))
    variants += tuple(f'{w} {h}{n}' for w in ('repr', 'latex') for h in HEADS for n in ('', ' 0', ' 1', ' 2', ' 3')
                      if (h == 'Pow') <= (n == ' 2') and (h in ('sin', 'cos')) <= (n == ' 1'))

    def run(self, E, variant):
        which, kind, n = (variant.split() + [None])[:3]
        core = Con(getattr(mods(), 'eval_' + which).evaluator)
        if kind == 'Integer':
            k = z3.Int('k')
            r = E.call(E.getattr(core, 'eval_atom'), [Tm(TREE, integer(E, k))], {})
            return E.emit(E.term(r, STR) == strint(k), 'an integer prints as itself', 'post')
        if kind in ('Symbol', 'Function'):
            s = Const('name', StrS)
            r = E.call(E.getattr(core, 'eval_atom'), [Tm(TREE, atom_of(E, kind, vstr(s)))], {})
            return E.emit(E.term(r, STR) == s, 'a name prints as itself', 'post')
        if kind == 'any':
            h = Const('h', TreeS)
            if getattr(self, 'levels', None):
                E.assume(isatom(h))       # C21 is about expressions with atoms as heads
            for k in ('Add', 'Mul', 'pow', 'sin', 'cos'):
                if which == 'latex' or k in ('Add', 'Mul', 'pow'):
                    E.assume(h != fun(E, k))
            hv = Tm(TREE, h)
        else:
            h = fun(E, 'pow' if kind == 'Pow' else kind)
            hv = Con(getattr(__import__('protosym.simplecas', fromlist=['x']), kind).rep)
        if n is None:
            s = Const('args', SS.S)
            v = E.alloc(ListC(STR, s))
        else:
            n = int(n)
            s = [Const(f's{i}', StrS) for i in range(n)]
            v = E.alloc(ListL([Tm(STR, x) for x in s]))
        r = E.call(E.getattr(core, 'eval_operation'), [hv, v], {})
        E.emit(E.term(r, STR) == pattern(E, which, kind, h, s, n), 'shows all arguments in order, as specified', 'post')


class HeadText(CheckTask):
    """str of a tree, as used for the head of a call."""
    name = 'str(head)'
    variants = ('name', 'integer', 'call', 'Atom')

    def run(self, E, variant):
        from protosym.core.tree import Tree
        from protosym.core.atom import Atom
        s = Const('name', StrS)
        if variant == 'Atom':
            a = Const('a', AtomS)
            r = E.call(E.class_attr(Atom, '__str__', Tm(ATOM, a)), [], {})
            E.assume(avalue(a) == vstr(s))
            return E.emit(E.term(r, STR) == s, 'an atom prints its value', 'post')
        if variant in ('name', 'integer'):
            k = z3.Int('k')
            t = atom_of(E, 'Function', vstr(s)) if variant == 'name' else integer(E, k)
            r = E.call(E.class_attr(Tree, '__str__', Tm(TREE, t)), [], {})
            stratom = Function(f'str:{AtomS}', AtomS, StrS)
            return E.emit(E.term(r, STR) == stratom(aval(t)), 'an atomic head prints as its atom', 'post')
        if variant == 'call':
            t, w, i = Const('t', TreeS), Const('strs', SS.S), z3.Int('i')
            s1, s2, sep = Const('s1', SS.S), Const('s2', SS.S), Const('sep', StrS)
            E.assume(Not(isatom(t)))
            E.assume(SS.len(w) == TS.len(kids(t)) - 1)
            E.assume(fa(i, Implies(And(0 <= i, i < SS.len(w)), SS.at(w, i) == strtree(TS.at(kids(t), i + 1))), SS.at(w, i)))
            d = Function('joined differ at', SS.S, SS.S, I)
            E.assume(fa([s1, s2, sep], Or(join(sep, s1) == join(sep, s2), SS.len(s1) != SS.len(s2), And(0 <= d(s1, s2), d(s1, s2) < SS.len(s1), SS.at(s1, d(s1, s2)) != SS.at(s2, d(s1, s2)))), (join(sep, s1), join(sep, s2))))
            r = E.call(E.class_attr(Tree, '__str__', Tm(TREE, t)), [], {})
            E.emit(E.term(r, STR) == text(E, strtree(head(t)), '(', join(E.strconst(', '), w), ')'), 'a compound head prints as a call', 'post')


class Hooks(CheckTask):
    """_repr_latex_ shows the LaTeX form between dollar signs."""
    name = 'Expr._repr_latex_'

    def run(self, E, variant):
        from .symeval import value_by
        from .evaluate import V
        x = Const('x', TreeS)
        r = E.call(E.getattr(Tm(ET(), x), '_repr_latex_'), [], {})
        s = E.str_(Tm(V, value_by(E, Con(mods().eval_latex), x, None)))
        E.emit(E.term(r, STR) == text(E, '$', *s, '$'), 'the LaTeX form between dollar signs', 'post')


# ---- reading the text as Python ---------------------------------------------------------
# reads(s, l, v): Python reads the string s as one expression of value v that binds at
# level l: 0 name, number, call, brackets; 1 power; 2 signed number.
Vv = z3.DeclareSort('PyResult')
VSeq = SeqTh(Vv)
reads = Function('reads', StrS, I, Vv, B)
vsum, vprod, vpow = Function('v:+', VSeq.S, Vv), Function('v:*', VSeq.S, Vv), Function('v:**', Vv, Vv, Vv)
vnum, vcall, vname = Function('v:int', I, Vv), Function('v:call', Vv, VSeq.S, Vv), Function('v:name', StrS, Vv)
isname = Function('is a name', StrS, B)
operands = Function('operands', SS.S, VSeq.S, B)       # every string reads, at level 2, as the value beside it


def const(s):
    return Const('S! ' + repr(s), StrS)


def form(skel, *args):
    from ..interp import strfun
    return strfun(skel, len(args))(*args)


def grammar():
    """The part of Python's expression grammar the text form uses (trusted)."""
    s, s2, q, r, v, w, k, l, l2 = Const('s', StrS), Const('s2', StrS), Const('q', SS.S), Const('r', VSeq.S), Const('v', Vv), Const('w', Vv), z3.Int('k'), z3.Int('l'), z3.Int('l2')
    out = [('looser contexts accept more', fa([s, l, l2, v], Implies(And(reads(s, l, v), l <= l2), reads(s, l2, v)), (reads(s, l, v), reads(s, l2, v)))),
           ('numbers', fa(k, And(Implies(k >= 0, reads(strint(k), 0, vnum(k))), Implies(k < 0, reads(strint(k), 2, vnum(k)))), strint(k))),
           ('names', fa(s, Implies(isname(s), reads(s, 0, vname(s))), isname(s)))]
    for sep, f in ((' + ', vsum), ('*', vprod)):
        g = form('(#)', join(const(sep), q))
        out.append((f'bracketed operands joined by {sep.strip()}', fa([q, r], Implies(And(operands(q, r), SS.len(q) >= 1), reads(g, 0, f(r))), (g, operands(q, r)))))
    g = form('#**#', s, s2)
    out.append(('powers', fa([s, s2, v, w], Implies(And(reads(s, 0, v), reads(s2, 2, w)), reads(g, 1, vpow(v, w))), (g, reads(s, 0, v), reads(s2, 2, w)))))
    g = form('#(#)', s, join(const(', '), q))
    out.append(('calls', fa([s, v, q, r], Implies(And(reads(s, 0, v), operands(q, r)), reads(g, 0, vcall(v, r))), (g, reads(s, 0, v), operands(q, r)))))
    return [f for _, f in out]


class Grammar(LemmaTask):
    """Induction over the expression: what is printed reads as the value, in any operand position."""
    name = 'lemma: the text form reads as the expression'
    variants = ('Integer', 'name', 'Add', 'Mul', 'pow', 'other')

    def obligations(self, variant):
        txt, val = Function('txt', TreeS, StrS), Function('val', TreeS, Vv)
        t, q, r, i = Const('t', TreeS), Const('texts', SS.S), Const('values', VSeq.S), z3.Int('i')
        kid = lambda n: TS.at(kids(t), n)
        ih = [SS.len(q) == TS.len(kids(t)) - 1, VSeq.len(r) == SS.len(q),
              fa(i, Implies(And(0 <= i, i < SS.len(q)), And(SS.at(q, i) == txt(TS.at(kids(t), i + 1)), VSeq.at(r, i) == val(TS.at(kids(t), i + 1)))), SS.at(q, i), VSeq.at(r, i)),
              fa(i, Implies(And(1 <= i, i < TS.len(kids(t))), reads(txt(kid(i)), 2, val(kid(i)))), TS.at(kids(t), i)),
              Implies(Not(operands(q, r)), And(0 <= Int_('bad'), Int_('bad') < SS.len(q), Not(reads(SS.at(q, Int_('bad')), 2, VSeq.at(r, Int_('bad'))))))]
        k, s = z3.Int('k'), Const('name', StrS)
        cases = {
            'Integer': ([txt(t) == strint(k), val(t) == vnum(k)], 2),
            'name': ([txt(t) == s, val(t) == vname(s), isname(s)], 0),
            'Add': ([txt(t) == form('(#)', join(const(' + '), q)), val(t) == vsum(r), TS.len(kids(t)) >= 2] + ih, 0),
            'Mul': ([txt(t) == form('(#)', join(const('*'), q)), val(t) == vprod(r), TS.len(kids(t)) >= 2] + ih, 0),
            'pow': ([txt(t) == form('#**#', txt(kid(1)), txt(kid(2))), val(t) == vpow(val(kid(1)), val(kid(2))), TS.len(kids(t)) == 3, reads(txt(kid(1)), 0, val(kid(1)))] + ih, 1),
            'other': ([txt(t) == form('#(#)', s, join(const(', '), q)), val(t) == vcall(val(kid(0)), r), reads(s, 0, val(kid(0))), TS.len(kids(t)) >= 1] + ih, 0)}
        hyps, lvl = cases[variant]
        out = [('reads as its value', grammar() + hyps, reads(txt(t), lvl, val(t)))]
        out.append(('in every operand position', grammar() + hyps + [reads(txt(t), lvl, val(t)), touch(reads(txt(t), 2, val(t)))], reads(txt(t), 2, val(t))))
        return out


def Int_(n):
    return z3.Int(n)


def tasks():
    return [TextRules(), HeadText(), Hooks(), Grammar()]
