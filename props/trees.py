"""Observers of parse trees through their public operations."""
from rules import *

T = 'parsers::tree::'
TO, TH, ND, AL, LF, BR, NC = T + 'TreeOwner', T + 'TreeHandle', T + 'Node', T + 'Alternative', T + 'Leaf', T + 'Branch', T + 'NodeContent'
WCH = 'utils::WasChanged'
PARTS = (TH, ND, AL, LF, BR, NC)


def variant(a, adt, name):
    for i, v in enumerate(a.p.adts[adt]['variants']):
        if v['name'] == name:
            return i
    raise Missing('%s::%s' % (adt, name))


class Tree:
    """one tree in a state; parts are built for it by type"""

    def __init__(self, a, name='tree'):
        self.a = a
        self.lock = SYM(name)
        self.h = AGG(TH, 0, (self.lock,))
        fs = a.p.adts[TH]['variants'][0]['fields']
        if len(fs) != 1:
            raise Missing('tree handle is one reference')
        ty = a.p.ty(fs[0]['ty'], {})
        self.root = ('C', self.lock)
        self.s0 = root_content(self.root)

    def part(self, adt, name):
        """a part of this tree with otherwise arbitrary fields"""
        out = []
        for f in self.a.p.adts[adt]['variants'][0]['fields']:
            ty = self.a.p.ty(f['ty'], {})
            if ty[0] == 'adt' and ty[1] == TH:
                out.append(self.h)
            else:
                s = SYM('%s_%s' % (name, f['name']))
                if ty[0] == 'other' and ty[1] in ('usize', 'u32', 'u64', 'u16', 'u8'):
                    UNSIGNED.add(s)
                out.append(s)
        return AGG(adt, 0, tuple(out))

    def run(self, fn, args, state=None):
        S = self.a.S(fn, None, list(args), None if state is None else {self.root: state}, )
        S.state = strip(S.mem.get(self.root, state if state is not None else self.s0))
        return S


def root_content(root):
    import mir
    return mir.root_default(root)
