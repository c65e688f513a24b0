"""Groups of coordinates: C40."""
from engine import terms as K
from engine.domain import Domain
from engine.terms import raw, num
from . import check
from .rxn import VF

CG = 'scaks/utilities/coordinate_utilities.py:CoordsGroup.'
P0, P1 = raw('var', 'p0'), raw('var', 'p1')


class Groups(Domain):
    """coordinates are lists of three numbers, as many as elements (C40: construction and append)"""

    def __init__(self, vector=None):
        Domain.__init__(self)
        self.vector = vector

    def never_none(self, t):
        return t.op == 'attr' and t.args[1] in ('__coords', '__elements')

    def group(self, t):
        return t.op == 'attr' and t.args[1] in ('__coords', '_CoordsGroup__coords')

    def rank(self, t):
        if self.group(t):
            return 2
        return 1 if t is self.vector else None

    def length(self, t):
        if t.op == 'idx' and self.group(t.args[0]) or t is self.vector:
            return num(3)
        if t.op == 'attr' and t.args[1] == '__elements':
            return raw('len', raw('attr', t.args[0], '__coords'))
        return Domain.length(self, t)


class Pair(Domain):
    def length(self, t):
        return num(3) if t in (P0, P1) else Domain.length(self, t)


def raises_only(t):
    if t.op == 'ite':
        return K.cond(t.args[0], raises_only(t.args[1]), raises_only(t.args[2]))
    return t if t.op == 'raise' else K.NONE


@check('C40')
def coords(c):
    c.rule(VF)
    c.equiv(CG + '__init__', 'coords', '__init__', observe=('ret', 'heap'), ob='construction')
    c.equiv(CG + 'append', 'coords', 'append', observe=('ret', 'heap', 'rejected'), ob='append')
    c.equiv(CG + 'extend', 'coords', 'extend', observe=('ret', 'heap', 'trace'), effects=['append'], opaque=['append'], zips=False, ob='extend')
    c.equiv(CG + 'move', 'coords', 'move', wrap=raises_only, ob='rejected vectors')
    c.equiv(CG + 'move', 'coords', 'move', observe=('ret', 'heap'), domain=Groups(vector=P0), ob='move')
    c.equiv(CG + '__add__', 'coords', '__add__', observe=('ret', 'heap'), domain=Groups(), objects={P0: 'CoordsGroup'}, ob='merge')
    c.equiv(CG + '__compare_coords', 'coords', 'same', domain=Pair(), ob='same place')
    c.equiv(CG + '__add__', 'coords', 'merge', observe=('ret', 'heap'), opaque=['__compare_coords'], domain=Groups(), objects={P0: 'CoordsGroup'},
            needs=['__compare_coords'], ob='merge of places')
    rel = CG.split(':')[0]
    c.driver(rel, 'coords', 'moved_apart', 'unchanged_move', where=CG + 'move', ob='moved group is separate', domain=Groups(vector=P1),
             objects={P0: 'CoordsGroup'}, construct=['CoordsGroup'])
    c.driver(rel, 'coords', 'merged_apart', 'unchanged_merge', where=CG + '__add__', ob='merged group is separate', domain=Groups(),
             objects={P0: 'CoordsGroup', P1: 'CoordsGroup'}, construct=['CoordsGroup'])
    for q in ('__len__', 'coordinates', 'elements'):
        c.equiv(CG + q, 'coords', q, observe=('ret', 'heap'), ob=q.strip('_'))
