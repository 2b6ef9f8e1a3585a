"""Canonical construction.

Callers see the constructors through these contracts: the object is determined
by the description (mk, mkleaf, mkatom are functions and injective).  C01
verifies the bodies against the same statement.
"""
from __future__ import annotations
import z3
from ..contract import *
from ..smt import *
from ..types import *
from .. import smt


def is_ty(E, v, ty):
    try:
        return E.typeof(v) == ty
    except Unsupported:
        return False


class TreeNew(Contract):
    target = 'protosym.core.tree:Tree.__new__'
    name = 'Tree'

    def apply(self, E, o, args, kwargs):
        E.calls_used.add(self.name)
        if kwargs:
            raise PyExc(TypeError, 'keyword arguments')
        if not args or not (isinstance(args[0], Con) and args[0].obj is PyTree):
            raise Unsupported('subclass of Tree')
        ch = E.pack_star(list(args[1:]))
        if isinstance(ch, TupV):
            if not ch.items:
                E.emit(BoolVal(False), 'a tree has at least a head', 'pre')
                raise Unsupported('Tree without children')
            for x in ch.items:
                if not is_ty(E, x, TREE):
                    raise PyExc(TypeError, 'children are trees')
            return Tm(TREE, mk(TS.lit([E.term(x, TREE) for x in ch.items])))
        if not (isinstance(ch.ty, SeqTy) and ch.ty.t == TREE):
            raise PyExc(TypeError, 'children are trees')
        E.emit(TS.len(ch.t) >= 1, 'a tree has at least a head', 'pre')
        E.assume(TS.len(ch.t) >= 1)
        return Tm(TREE, mk(ch.t))


class TreeAtom(Contract):
    target = 'protosym.core.tree:Tree.atom'
    name = 'Tree.atom'

    def apply(self, E, o, args, kwargs):
        E.calls_used.add(self.name)
        b = self.bind(E, args, kwargs)
        if not is_ty(E, b['value'], ATOM):
            raise PyExc(TypeError, 'the value is an Atom')
        return Tm(TREE, mkleaf(E.term(b['value'], ATOM)))


class AtomNew(Contract):
    target = 'protosym.core.atom:Atom.__new__'
    name = 'Atom'

    def apply(self, E, o, args, kwargs):
        E.calls_used.add(self.name)
        b = self.bind(E, args, kwargs)
        if not is_ty(E, b['atom_type'], ATYPE):
            raise Unsupported('atom type')
        return Tm(ATOM, mkatom(E.term(b['atom_type'], ATYPE), E.term(b['value'], VAL)))


class SymNew(Contract):
    target = 'protosym.core.sym:Sym.__new__'
    name = 'Sym'

    def apply(self, E, o, args, kwargs):
        E.calls_used.add(self.name)
        b = self.bind(E, args, kwargs)
        cls = b['cls']
        if not is_ty(E, b['tree_expr'], TREE):
            raise PyExc(TypeError, 'argument is a tree')
        return Tm(SymTy(cls.obj), E.term(b['tree_expr'], TREE))


def constructors():
    return [TreeNew(), TreeAtom(), AtomNew(), SymNew()]
