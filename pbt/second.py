"""Families on the second implementation of assemblers and assembled types."""
import magma as m
from peak import family as fam
from peak.assembler2.assembled_adt import AssembledADT, MagmaADT
from peak.assembler2.assembler import Assembler


def _second(F, T=AssembledADT, extras=()):
    class Second(F):
        def get_adt_t(self, adt_t):
            # the family decides what is an algebraic data type; leaves stay as they are
            if super().get_adt_t(adt_t) is adt_t:
                return adt_t
            return T[(adt_t, Assembler, self.BitVector, *extras)]

        def get_constructor(self, adt_t):
            return self.get_adt_t(adt_t).from_fields
    Second.__name__ = F.__name__ + '2'
    return Second


PyX = _second(fam.PyXFamily)
SMT = _second(fam.SMTFamily)
Magma = _second(fam.MagmaFamily, MagmaADT, (m.Direction.Undirected,))
