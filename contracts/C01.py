"""C01 trees and forests."""
import itertools
from .common import *

EXPLANATION = ('Recursive operations and the bookkeeping of new nodes are proved one step at a time for nodes of any depth, address and subtree (the callee on '
               'children and parents is replaced by its contract); every query and operation is in addition checked on all listed tree shapes with every '
               'combination of marks (bounded).')

# shapes: nested tuples of children, None for a missing child, () for a leaf
SHAPES = {
    'leaf': (2, ()),
    'split-2': (2, ((), ())),
    'chain': (2, ((), ((), ()))),
    'left': (2, (((), ()), ())),
    'full-2': (2, (((), ()), ((), ()))),
    'hole': (2, (None, ((), None))),
    'three': (3, ((), ((), (), ()), ())),
    'single': (1, (((),),)),
    'deep': (2, ((((), ()), ()), ())),
    'irregular': (None, ((), ((),), ((), ()))),
    'uneven': (None, ((), ((),))),
    'quad': (4, ((), ((), (), (), ()), (), ())),
}
SMALL = ['leaf', 'split-2', 'chain', 'full-2', 'hole', 'single', 'irregular']
FORESTS = {
    'empty': [],
    'one': ['chain'],
    'left': ['left'],
    'two': ['split-2', 'chain'],
    'leaves': ['leaf', 'leaf', 'leaf'],
    'mixed': ['leaf', 'single', 'split-2'],
    'hole': ['hole', 'leaf'],
    'irregular': ['leaf', 'uneven'],
}


class Node(object):
    """shadow node: the structure the queries are checked against"""

    def __init__(self, parent, pos, depth, address, node):
        self.parent, self.pos, self.depth, self.address, self.node = parent, pos, depth, address, node
        self.kids = []          # with None for holes
        self.marks = set()

    @property
    def children(self):
        return [k for k in self.kids if k is not None]

    def pre(self):
        out = [self]
        for k in self.children:
            out += k.pre()
        return out

    def ancestors(self):
        p, out = self.parent, []
        while p is not None:
            out.append(p)
            p = p.parent
        return out


def grow(t, shape):
    """split the real tree according to the shape"""
    if not shape:
        return
    if t.is_regular():
        t.split()
    else:
        t.split(n_children=len(shape))
    for i, s in enumerate(shape):
        c = t.get_child(i)
        if s is None:
            c.remove()
        else:
            grow(c, s)


def shadow(t, shape, parent=None, pos=None, address=()):
    """the structure the shape describes, with the real nodes found by position"""
    n = Node(parent, pos, 0 if parent is None else parent.depth + 1, list(address), t)
    for i, s in enumerate(shape):
        n.kids.append(None if s is None else shadow(t.get_child(i), s, n, i, list(address) + [i]))
    return n


def tree(name):
    n, shape = SHAPES[name]
    t = M().Tree(n) if n is not None else M().Tree(regular=False)
    grow(t, shape)
    return t, shadow(t, shape)


def forest(names):
    m = M()
    real = []
    for x in names:
        n, shape = SHAPES[x]
        t = m.Tree(n) if n is not None else m.Tree(regular=False)
        grow(t, shape)
        real.append((t, shape))
    F = m.Forest([t for t, s in real])
    return F, [shadow(t, s, None, i, [i]) for i, (t, s) in enumerate(real)]


def bfs(roots):
    out, level = [], list(roots)
    while level:
        out += level
        level = [k for n in level for k in n.children]
    return out


def allnodes(roots):
    return [n for r in roots for n in r.pre()]


def choose(ctx, nodes, flag, tag):
    for i, n in enumerate(nodes):
        if ctx.choice('%s%d' % (tag, i), [False, True]):
            n.marks.add(flag)
            n.node.mark(flag)


def same_marks(ctx, nodes, what, flags=('a', 'b', 'c')):
    bad = [(n.address, f) for n in nodes for f in flags if n.node.is_marked(f) != (f in n.marks)]
    ctx.prove(what, not bad, bad)


def reals(ns):
    return [n.node for n in ns]


def order(ctx, got, want, what, note=None):
    ctx.prove(what, len(got) == len(want) and all(a is b for a, b in zip(got, want)), note or len(got))


def structure(ctx, roots, forest=None):
    """parents, children, depth, address, position of every node"""
    for n in allnodes(roots):
        t = n.node
        ctx.prove('depth', t.get_depth() == n.depth)
        ctx.prove('address', t.get_node_address() == n.address, (t.get_node_address(), n.address))
        ctx.prove('position', t.get_node_position() == n.pos or n.parent is None and forest is None and t.get_node_position() is None)
        ctx.prove('parent', t.get_parent() is (n.parent.node if n.parent else None) and t.has_parent() == (n.parent is not None))
        ctx.prove('children', list(t.get_children()) == reals(n.children) and list(t.get_children(reverse=True)) == reals(n.children)[::-1])
        ctx.prove('has-children', t.has_children() == bool(n.children))
        for i, k in enumerate(n.kids):
            ctx.prove('child', t.get_child(i) is (k.node if k else None) and t.has_children(position=i) == (k is not None))
        ctx.prove('root', t.get_root() is ([n] + n.ancestors())[-1].node)
        ctx.prove('type', (t.get_node_type() == 'ROOT') == (n.parent is None))
        if n.children and n.parent is not None:
            ctx.prove('type', t.get_node_type() == 'BRANCH')


def tree_queries(ctx, shape):
    """every query about an arbitrarily marked tree"""
    ctx.fn(*['mesh.Tree.' + f for f in (
        'split', 'add_child', 'traverse', 'get_leaves', 'get_children', 'has_children', 'has_parent', 'get_parent', 'get_root', 'get_child', 'find_node',
        'nearest_ancestor', 'contains', 'is_rooted_subtree', 'tree_depth', 'is_marked', 'mark', 'get_depth', 'get_node_address', 'get_node_position')])
    t, r = tree(shape)
    structure(ctx, [r])
    nodes = r.pre()
    choose(ctx, nodes, 'a', 'm')
    for f in (None, 'a'):
        inside = lambda n: f is None or f in n.marks
        for n in nodes:
            sub = n.pre()
            order(ctx, list(n.node.traverse(flag=f)), reals(k for k in sub if inside(k)), 'depth-first')
            order(ctx, list(n.node.traverse(flag=f, mode='breadth-first')), reals(k for k in bfs([n]) if inside(k)), 'breadth-first')
            for mode, seq in (('breadth-first', bfs([n])), ('depth-first', sub)):
                leaves = [k for k in seq if inside(k) and not any(inside(c) for c in k.children)]
                order(ctx, n.node.get_leaves(subtree_flag=f, mode=mode), reals(leaves), 'leaves')
                order(ctx, n.node.get_leaves(flag='a', subtree_flag=f, mode=mode), reals(k for k in leaves if 'a' in k.marks), 'flagged-leaves')
            order(ctx, n.node.get_leaves(), reals(k for k in bfs([n]) if not k.children), 'leaves-by-default')
            order(ctx, list(n.node.get_children(flag=f)), reals(k for k in n.children if inside(k)), 'flagged-children')
            order(ctx, list(n.node.get_children(flag=f, reverse=True)), reals(k for k in reversed(n.children) if inside(k)), 'flagged-children')
            ctx.prove('has-flagged-children', n.node.has_children(flag=f) == any(inside(k) for k in n.children))
            for i, k in enumerate(n.kids):
                ctx.prove('has-flagged-child-at', bool(n.node.has_children(position=i, flag=f)) == (k is not None and inside(k)))
            up = [k for k in n.ancestors() if inside(k)]
            ctx.prove('nearest-flagged-parent', n.node.get_parent(flag=f) is (up[0].node if up else None))
            ctx.prove('has-flagged-parent', bool(n.node.has_parent(flag=f)) == (n.parent is not None and inside(n.parent)))
            near = [k for k in [n] + n.ancestors() if inside(k)]
            ctx.prove('nearest-ancestor', n.node.nearest_ancestor(f) is (near[0].node if near else None))
            depths = [k.depth for k in sub if k is n or all(inside(q) for q in [k] + k.ancestors() if q.depth > n.depth)]
            ctx.prove('tree-depth', n.node.tree_depth(flag=f) == max(depths), (n.node.tree_depth(flag=f), max(depths)))
            for k in nodes:
                ctx.prove('contains', bool(n.node.contains(k.node)) == (n in [k] + k.ancestors()))
    ctx.prove('is-rooted-subtree', t.is_rooted_subtree('a') == all('a' in k.marks for n in nodes if 'a' in n.marks for k in n.ancestors()))
    for n in nodes:
        ctx.prove('find-by-address', nodes[-1].node.find_node(n.address) is n.node)
        for extra in (0, 1, len(n.kids), 7):
            want = n.kids[extra].node if extra < len(n.kids) and n.kids[extra] else None
            ctx.prove('find-missing-address', t.find_node(n.address + [extra]) is want)
            ctx.prove('find-missing-address', want is not None or t.find_node(n.address + [extra, 0]) is None)
    same_marks(ctx, nodes, 'queries-leave-marks')
    other = M().Tree(2)
    ctx.prove('contains', not t.contains(other) and not nodes[-1].node.contains(other))


def tree_marks(ctx, shape):
    """marking and unmarking"""
    ctx.fn('mesh.Tree.mark', 'mesh.Tree.unmark', 'mesh.Tree.is_marked', 'mesh.Tree.make_rooted_subtree')
    t, r = tree(shape)
    nodes = r.pre()
    choose(ctx, nodes, 'a', 'm')
    for n in nodes[::2]:
        n.node.mark('b')
        n.marks.add('b')
    n = nodes[ctx.choice('node', list(range(len(nodes))))]
    rec, rev = ctx.choice('recursive', [False, True]), ctx.choice('reverse', [False, True])
    target = [n] + ((n.ancestors() if rev else n.pre()[1:]) if rec else [])
    op = ctx.choice('op', ['mark', 'unmark', 'unmark-all', 'mark-default', 'make-rooted'])
    ret = None
    if op == 'mark':
        n.node.mark('a', recursive=rec, reverse=rev)
        for k in target:
            k.marks.add('a')
    elif op == 'unmark':
        n.node.unmark('a', recursive=rec, reverse=rev)
        for k in target:
            k.marks.discard('a')
    elif op == 'unmark-all':
        n.node.unmark(recursive=rec, reverse=rev)
        for k in target:
            k.marks.clear()
    elif op == 'mark-default':
        n.node.mark(recursive=rec, reverse=rev)
        for k in target:
            k.marks.add(True)
    else:
        n.node.make_rooted_subtree('a')
        for k in nodes:
            if any('a' in q.marks for q in k.pre()):
                k.marks.add('+a')
        for k in nodes:
            if '+a' in k.marks:
                k.marks.remove('+a')
                k.marks.add('a')
        ctx.prove('rooted-afterwards', t.is_rooted_subtree('a'))
    same_marks(ctx, nodes, 'exactly-these-marks', flags=('a', 'b', 'c', True))
    for k in nodes:
        ctx.prove('marked-at-all', k.node.is_marked() == bool(k.marks))
    structure(ctx, [r])


def tree_edit(ctx, shape):
    """removing nodes and children"""
    ctx.fn('mesh.Tree.remove', 'mesh.Tree.delete_children', 'mesh.Tree.split', 'mesh.Tree.add_child')
    t, r = tree(shape)
    nodes = r.pre()
    n = nodes[ctx.choice('node', list(range(len(nodes))))]
    op = ctx.choice('op', ['remove', 'delete-all', 'delete-one', 'split-again', 'add'])
    if op == 'remove':
        if n.parent is None:
            try:
                n.node.remove()
                ok = False
            except AssertionError:
                ok = True
            ctx.prove('root-stays', ok)
        else:
            n.node.remove()
            n.parent.kids[n.pos] = None
    elif op == 'delete-all':
        n.node.delete_children()
        n.kids = [None] * len(n.kids)
        ctx.prove('leaf-again', n.parent is None or n.node.get_node_type() == 'LEAF')
    elif op == 'delete-one':
        if n.children:
            k = n.children[ctx.choice('child', [0, 1]) % len(n.children)]
            n.node.delete_children(position=k.pos)
            n.kids[k.pos] = None
    elif op == 'split-again':
        # deleted or missing children are replaced by new leaves
        if not n.children and n.node.is_regular():
            n.node.split()
            n.kids = [Node(n, i, n.depth + 1, n.address + [i], n.node.get_child(i)) for i in range(n.node.n_children())]
            ctx.prove('new-nodes', all(k.node is not None and not k.node.has_children() and not k.node.is_marked() for k in n.kids))
    elif not n.node.is_regular():
        n.node.add_child()
        i = len(n.kids)
        n.kids.append(Node(n, i, n.depth + 1, n.address + [i], n.node.get_child(i)))
    structure(ctx, [r])
    order(ctx, list(t.traverse()), reals(r.pre()), 'exactly-the-remaining-nodes')


def closure(roots, flag):
    ns = allnodes(roots)
    mk = [n for n in ns if flag in n.marks]
    for r in roots:
        r.marks.add(flag)
    for n in mk:
        for k in n.ancestors():
            k.marks.add(flag)
            for c in k.children:
                c.marks.add(flag)


def forest_queries(ctx, which):
    ctx.fn(*['mesh.Forest.' + f for f in ('__init__', 'traverse', 'get_leaves', 'get_children', 'has_children', 'get_child', 'find_node', 'depth', 'subtrees_rooted',
                                          'is_contained_in', 'add_tree', 'n_children', 'is_regular')])
    F, roots = forest(FORESTS[which])
    structure(ctx, roots, F)
    nodes = allnodes(roots)
    choose(ctx, nodes, 'a', 'm')
    ctx.prove('size', F.n_children() == len(roots))
    ctx.prove('regular', F.is_regular() == all(k.node.is_regular() for k in roots))
    ctx.prove('all-depth', F.depth() == max([n.depth for n in nodes] or [0]))
    for f in (None, 'a'):
        inside = lambda n: f is None or f in n.marks
        order(ctx, list(F.traverse(flag=f)), reals(k for k in nodes if inside(k)), 'depth-first')
        order(ctx, list(F.traverse(flag=f, mode='breadth-first')), reals(k for k in bfs(roots) if inside(k)), 'breadth-first')
        for mode, seq in (('breadth-first', bfs(roots)), ('depth-first', nodes)):
            leaves = [k for k in seq if inside(k) and not any(inside(c) for c in k.children)]
            order(ctx, F.get_leaves(subforest_flag=f, mode=mode), reals(leaves), 'leaves')
            order(ctx, F.get_leaves(flag='a', subforest_flag=f, mode=mode), reals(k for k in leaves if 'a' in k.marks), 'flagged-leaves')
        order(ctx, list(F.get_children(flag=f)), reals(k for k in roots if inside(k)), 'trees')
        order(ctx, list(F.get_children(flag=f, reverse=True)), reals(k for k in reversed(roots) if inside(k)), 'trees-reversed')
        ctx.prove('has-trees', bool(F.has_children(flag=f)) == any(inside(k) for k in roots))
    for i, k in enumerate(roots):
        ctx.prove('tree-at', F.get_child(i) is k.node and k.node.in_forest() and k.node.get_forest() is F)
    for n in nodes:
        ctx.prove('find-by-address', F.find_node(list(n.address)) is n.node)
        ctx.prove('find-by-address', nodes[0].node.find_node(list(n.address)) is n.node)
        for extra in (0, 1, len(n.kids), 7):
            want = n.kids[extra].node if extra < len(n.kids) and n.kids[extra] else None
            ctx.prove('find-missing-address', F.find_node(n.address + [extra]) is want)
    ctx.prove('find-missing-address', F.find_node([len(roots), 0]) is None)
    before = [set(n.marks) for n in nodes]
    if nodes:
        closed = [n for n in nodes]
        closure(roots, 'a')
        full = [set(n.marks) for n in nodes]
        ctx.prove('subtrees-rooted', F.subtrees_rooted('a') == (before == full))
    for n, b in zip(nodes, before):
        n.marks = b
    same_marks(ctx, nodes, 'queries-leave-marks')


def constructed(ctx):
    """marks and the forest handed to the constructor of a node"""
    ctx.fn('mesh.Tree.__init__', 'mesh.Tree.mark', 'mesh.Forest.__init__', 'mesh.Tree.in_forest', 'mesh.Tree.get_forest')
    m = mod('mesh')
    n = ctx.choice('trees', [0, 1, 2])
    F = m.Forest([m.Tree(n_children=2) for _ in range(n)] if n else None)
    flag = ctx.choice('marks', [None, 'a', 7, ('a', 1), {'a', 'b'}, set()])
    marks = flag if isinstance(flag, set) else set() if flag is None else {flag}
    regular = ctx.choice('regular', [True, False])
    inside = ctx.choice('planted', [False, True])
    t = m.Tree(n_children=3 if regular else None, regular=regular, flag=flag, forest=F if inside else None)
    ctx.prove('marked', all(t.is_marked(f) == (f in marks) for f in ('a', 'b', 7, ('a', 1))) and t.is_marked() == bool(marks))
    ctx.prove('root', t.get_depth() == 0 and t.get_parent() is None and not t.has_children() and t.is_regular() == regular
              and t.n_children() == (3 if regular else 0) and t.get_node_type() == 'ROOT')
    if inside:
        ctx.prove('planted', t.in_forest() and t.get_forest() is F and F.n_children() == n + 1 and F.get_child(n) is t
                  and t.get_node_position() == n and list(t.get_node_address()) == [n] and F.find_node([n]) is t)
    else:
        ctx.prove('not-planted', not t.in_forest() and t.get_forest() is None and F.n_children() == n and list(t.get_node_address()) == []
                  and t.get_node_position() is None)
    k = m.Tree(parent=t, position=1 if regular else 0, regular=regular, flag=flag)
    ctx.prove('child-marked', all(k.is_marked(f) == (f in marks) for f in ('a', 'b', 7, ('a', 1))))
    ctx.prove('child', k.get_parent() is t and k.get_depth() == 1 and list(k.get_node_address()) == list(t.get_node_address()) + [1 if regular else 0])
    k.mark('later')
    ctx.prove('own-marks', not t.is_marked('later') and (not isinstance(flag, set) or 'later' not in flag))


def contained(ctx, which):
    """one sub-forest refines another"""
    ctx.fn('mesh.Forest.is_contained_in')
    F, roots = forest(FORESTS[which])
    nodes = allnodes(roots)
    choose(ctx, nodes, 'a', 'm')
    choose(ctx, nodes, 'b', 'n')
    leaves = [k for k in nodes if 'a' in k.marks and not any('a' in c.marks for c in k.children)]
    want = all(any('b' in q.marks for q in [k] + k.ancestors()) for k in leaves)
    ctx.prove('refinement-of', F.is_contained_in('a', 'b') == want)
    ctx.prove('refinement-of', F.is_contained_in('a', 'a') and F.is_contained_in(None, 'b'))
    same_marks(ctx, nodes, 'queries-leave-marks')


def forest_edit(ctx, which):
    ctx.fn('mesh.Forest.add_tree', 'mesh.Forest.remove_tree', 'mesh.Forest.record', 'mesh.Forest.root_subtrees')
    F, roots = forest(FORESTS[which])
    nodes = allnodes(roots)
    choose(ctx, nodes, 'a', 'm')
    op = ctx.choice('op', ['remove', 'add', 'record', 'root'])
    gone = None
    if op == 'remove' and roots:
        i = ctx.choice('tree', [0, 1, 2]) % len(roots)
        F.remove_tree(i)
        gone = roots.pop(i)
        nodes = allnodes(roots)
    elif op == 'add':
        t, r = tree('chain')
        F.add_tree(t)
        roots.append(r)
        nodes = allnodes(roots)
    elif op == 'record':
        F.record('b')
        for n in nodes:
            n.marks.add('b')
    elif op == 'root':
        F.root_subtrees('a')
        closure(roots, 'a')
        ctx.prove('rooted-afterwards', F.subtrees_rooted('a'))

    def renumber(r, a):
        r.address = a
        for k in r.children:
            renumber(k, a + [k.pos])
    for i, r in enumerate(roots):
        r.pos = i
        renumber(r, [i])
    structure(ctx, roots, F)
    if gone is not None:
        renumber(gone, [])
        structure(ctx, [gone])
        ctx.prove('left-the-forest', not gone.node.in_forest() and gone.node.get_forest() is None)
    order(ctx, list(F.traverse()), reals(nodes), 'exactly-these-trees')
    same_marks(ctx, nodes, 'exactly-these-marks')


def refine(ctx, which):
    """refining changes exactly the leaves that are asked for"""
    ctx.fn('mesh.Forest.refine', 'mesh.Forest.root_subtrees')
    F, roots = forest(FORESTS[which])
    nodes = allnodes(roots)
    sub = ctx.choice('sub', [None, 'a'])
    if sub:
        choose(ctx, nodes, 'a', 'm')
    flag = ctx.choice('refinement', [None, 'r'])
    if flag:
        choose(ctx, nodes, 'r', 'n')
    new = ctx.choice('new', [None, 'c', 'a'] if sub else [None, 'c'])
    clean = ctx.choice('clean', [True, False])
    F.refine(subforest_flag=sub, refinement_flag=flag, new_label=new, clean_up=clean)
    # the contract
    if sub:
        closure(roots, sub)
    inside = lambda n: sub is None or sub in n.marks
    leaves = [n for n in nodes if inside(n) and not any(inside(c) for c in n.children)]
    fresh = []
    for n in leaves:
        if new:
            n.marks.add(new)
    for n in leaves:
        if flag and flag not in n.marks:
            continue
        if not n.children:
            w = n.node.n_children()
            ctx.prove('leaf-was-split', len([k for k in n.node.get_children()]) == w)
            n.kids = [Node(n, i, n.depth + 1, n.address + [i], n.node.get_child(i)) for i in range(w)]
            fresh += n.kids
        for k in n.children:
            if new or sub:
                k.marks.add(new or sub)
        if flag and clean:
            n.marks.discard(flag)
    if new:
        closure(roots, new)
    structure(ctx, roots, F)
    order(ctx, list(F.traverse()), reals(allnodes(roots)), 'exactly-these-nodes')
    same_marks(ctx, allnodes(roots), 'exactly-these-marks', flags=('a', 'r', 'c'))


def coarsen(ctx, which):
    """coarsening changes exactly what lies below the nodes that are asked for"""
    ctx.fn('mesh.Forest.coarsen', 'mesh.Tree.coarsen', 'mesh.Tree.delete_children')
    F, roots = forest(FORESTS[which])
    nodes = allnodes(roots)
    sub = ctx.choice('sub', [None, 'a'])
    if sub:
        choose(ctx, nodes, 'a', 'm')
    flag = ctx.choice('coarsening', [None, 'r'])
    if flag:
        choose(ctx, nodes, 'r', 'n')
    new = ctx.choice('new', [None, 'c'])
    clean = ctx.choice('clean', [True, False])
    F.coarsen(subforest_flag=sub, coarsening_flag=flag, new_label=new, clean_up=clean)
    if sub:
        closure(roots, sub)
    inside = lambda n: sub is None or sub in n.marks
    cut = lambda n: flag in n.marks if flag else \
        any(inside(c) for c in n.children) and not any(inside(g) for c in n.children for g in c.children)
    todo = list(roots)
    cuts = []
    while todo:
        n = todo.pop()
        if not inside(n):
            continue
        if new:
            n.marks.add(new)
        if cut(n):
            cuts.append(n)
        elif any(inside(c) for c in n.children):
            todo += n.children
    for n in cuts:
        if not new:
            if sub:
                for k in n.pre()[1:]:
                    k.marks.discard(sub)
            else:
                n.kids = [None] * len(n.kids)
        if flag and clean:
            n.marks.discard(flag)
    structure(ctx, roots, F)
    order(ctx, list(F.traverse()), reals(allnodes(roots)), 'exactly-these-nodes')
    same_marks(ctx, allnodes(roots), 'exactly-these-marks', flags=('a', 'r', 'c'))


# ---------------------------------------------------------------- one step of the recursion, any depth and any subtree
def stubs(ctx):
    m = M()

    class Sub(m.Tree):
        """a child with an unknown subtree: recursive calls are answered by their contract"""
        hidden = ()

        def mark(self, flag=None, recursive=False, reverse=False):
            m.Tree.mark(self, flag)
            if recursive:
                for k in (self.up if reverse else self.hidden):
                    k.mark(flag)

        def unmark(self, flag=None, recursive=False, reverse=False):
            m.Tree.unmark(self, flag)
            if recursive:
                for k in (self.up if reverse else self.hidden):
                    k.unmark(flag)

        def tree_depth(self, flag=None):
            return self.deepest[flag]

        def get_depth(self):
            return self.depth_ if hasattr(self, 'depth_') else m.Tree.get_depth(self)

        def get_node_address(self):
            return self.address_ if hasattr(self, 'address_') else m.Tree.get_node_address(self)
    return m, Sub


def step_down(ctx, n):
    """recursive marking and depth at a node whose children have arbitrary subtrees"""
    ctx.fn('mesh.Tree.mark', 'mesh.Tree.unmark', 'mesh.Tree.tree_depth')
    m, Sub = stubs(ctx)
    t = m.Tree(n)
    d = ctx.integer('depth', lo=0)
    ctx.assume(t.get_depth() == 0)
    kids = []
    for i in range(n):
        if ctx.choice('child%d' % i, [True, False]):
            c = Sub(parent=t, position=i)
            c.hidden = [m.Tree(2), m.Tree(2)]
            e = ctx.integer('deepest%d' % i, lo=1)
            f = ctx.integer('flagged%d' % i, lo=1)
            ctx.assume(f <= e)
            c.deepest = {None: e, 'a': f}
            if ctx.choice('marked%d' % i, [False, True]):
                c.mark('a')
            t._children[i] = c
            kids.append(c)
    had = [c.is_marked('a') for c in kids]
    for flag in (None, 'a'):
        v = t.tree_depth(flag=flag)
        want = [c.deepest[flag] for c, h in zip(kids, had) if flag is None or h]
        ctx.prove('at-least-the-deepest-child', ctx.and_([v >= w for w in want]) if hasattr(ctx, 'and_') else all_(ctx, [v >= w for w in want]))
        ctx.prove('attained', any_(ctx, [v == w for w in want] + ([v == 0] if not want else [])))
    op = ctx.choice('op', ['mark', 'unmark'])
    rec = ctx.choice('recursive', [True, False])
    extra = ctx.choice('other', [False, True])
    nodes = [t] + [k for c in kids for k in [c] + c.hidden]
    if extra:
        for k in nodes:
            k._flags.add('b')
    if op == 'unmark':
        for k in nodes:
            k._flags.add('a')
    getattr(t, op)('a', recursive=rec)
    for k in nodes:
        touched = rec or k is t
        want = (op == 'mark') if touched else (op == 'unmark' or (k in kids and had[kids.index(k)]))
        ctx.prove('exactly-the-subtree', k.is_marked('a') == want)
        ctx.prove('other-marks-kept', k.is_marked('b') == extra)


def all_(ctx, cs):
    r = True
    for c in cs:
        r = c if r is True else r & c
    return r


def any_(ctx, cs):
    r = False
    for c in cs:
        r = c if r is False else r | c
    return r


def step_up(ctx):
    """marking upwards, flagged parents and the root at a node with arbitrary ancestors"""
    ctx.fn('mesh.Tree.mark', 'mesh.Tree.unmark', 'mesh.Tree.get_parent', 'mesh.Tree.get_root', 'mesh.Tree.has_parent')
    m, Sub = stubs(ctx)
    top = m.Tree(2)
    top.split()
    far = top.get_child(1)
    far.split()

    class Par(Sub):
        up = [far, top]

        def get_parent(self, flag=None):
            return far              # the parent, and the nearest ancestor marked 'b'

        def get_root(self):
            return top
    p = Par(parent=far, position=0)
    far.mark('b')
    if ctx.choice('parent-marked', [False, True]):
        p.mark('a')
        p.mark('b')
    c = m.Tree(parent=p, position=1)
    ctx.prove('parent', c.get_parent() is p and c.has_parent())
    ctx.prove('nearest-flagged-parent', c.get_parent('b') is (p if p.is_marked('b') else far))
    ctx.prove('has-flagged-parent', c.has_parent('b') == p.is_marked('b'))
    ctx.prove('root', c.get_root() is top)
    rec = ctx.choice('recursive', [True, False])
    was = p.is_marked('a')
    c.mark('a', recursive=rec, reverse=True)
    ctx.prove('marked-upwards', c.is_marked('a') and p.is_marked('a') == (rec or was) and far.is_marked('a') == rec)
    c.unmark('a', recursive=rec, reverse=True)
    ctx.prove('unmarked-upwards', not c.is_marked('a') and p.is_marked('a') == (not rec and was) and not far.is_marked('a'))


def step_new(ctx, n):
    """splitting a node of any depth and address"""
    ctx.fn('mesh.Tree.split', 'mesh.Tree.__init__')
    m, Sub = stubs(ctx)
    t = Sub(n)
    t.depth_ = ctx.integer('depth', lo=0)
    t.address_ = [ctx.integer('a%d' % i, lo=0) for i in range(ctx.choice('length', [0, 1, 2, 3]))]
    t.split()
    for i in range(n):
        c = t.get_child(i)
        ctx.prove('depth', c.get_depth() == t.depth_ + 1)
        a = c.get_node_address()
        ctx.prove('address', len(a) == len(t.address_) + 1 and all(x is y for x, y in zip(a, t.address_)) and a[-1] == i)
        ctx.prove('new-leaf', c.get_parent() is t and c.get_node_position() == i and not c.has_children() and c.n_children() == n and not c.is_marked())


def step_coarsen(ctx, n):
    """coarsening at one node whose children have arbitrary subtrees: recursive calls are answered by their contract"""
    ctx.fn('mesh.Tree.coarsen', 'mesh.Tree.delete_children')
    m, Sub = stubs(ctx)
    calls = []

    class Kid(Sub):
        def has_children(self, position=None, flag=None):
            assert position is None
            return self.sub_ and (flag is None or self.subflag)

        def coarsen(self, subforest_flag=None, coarsening_flag=None, new_label=None, clean_up=True, debug=False):
            calls.append((self, (subforest_flag, coarsening_flag, new_label, clean_up)))
    t = m.Tree(n)
    sub = ctx.choice('sub', [None, 'a'])
    cf = ctx.choice('flag', [None, 'r'])
    new = ctx.choice('new', [None, 'c'])
    clean = ctx.choice('clean', [True, False])
    here, asked = ctx.boolean('marked'), ctx.boolean('asked')
    if sub and here:
        t.mark(sub)
    if asked:
        t.mark('r')
    kids = []
    for i in range(n):
        if not ctx.boolean('child%d' % i):
            continue
        c = Kid(parent=t, position=i)
        c.hidden = [m.Tree(2)]
        c.sub_ = ctx.boolean('grandchildren%d' % i)
        c.subflag = ctx.boolean('flagged-grandchildren%d' % i)
        t._children[i] = c
        kids.append(c)
        if sub and ctx.boolean('in%d' % i):
            for k in [c] + c.hidden:
                k.mark(sub)
    inside = [bool(c.is_marked(sub)) if sub else True for c in kids]
    hidden = [[bool(k.is_marked('a')) for k in c.hidden] for c in kids]
    t.coarsen(subforest_flag=sub, coarsening_flag=cf, new_label=new, clean_up=clean)
    if sub and not here:
        ctx.prove('outside-the-sub-forest', not calls and not t.is_marked('c') and list(t.get_children()) == kids and all(c.is_marked(sub) == w for c, w in zip(kids, inside)))
        return
    more = [c.sub_ and (sub is None or c.subflag) for c in kids]
    cut = asked if cf else (any(inside) and not any(more))
    ctx.prove('new-label', t.is_marked('c') == (new is not None))
    if cut:
        ctx.prove('not-below-a-coarsened-node', not calls)
        if new:
            ctx.prove('children-kept', list(t.get_children()) == kids and all(c.is_marked('a') == (w and sub is not None) for c, w in zip(kids, inside)))
        elif sub:
            ctx.prove('children-leave-the-sub-forest', list(t.get_children()) == kids and not any(k.is_marked(sub) for c in kids for k in [c] + c.hidden))
        else:
            ctx.prove('children-deleted', not t.has_children())
        ctx.prove('cleaned', t.is_marked('r') == (asked and not (cf and clean)))
    else:
        ctx.prove('children-kept', list(t.get_children()) == kids and all([bool(k.is_marked('a')) for k in c.hidden] == h for c, h in zip(kids, hidden)))
        ctx.prove('mark-kept', t.is_marked('r') == asked)
        want = kids if any(inside) else []
        ctx.prove('every-child-coarsened-once', [c for c, _ in calls] == want)
        ctx.prove('same-arguments', all(k == (sub, cf, new, clean) for _, k in calls))


# node steps with stand-ins for the neighbouring nodes: a failure there is an undischarged obligation, not yet a failing history
MODULAR = {'step_down', 'step_up', 'step_new', 'step_coarsen'}


def harnesses(tier):
    H = Harness
    out = [H(step_down, 'step-down-%d' % n, params=dict(n=n)) for n in (1, 2)]
    out += [H(step_up), ] + [H(step_new, 'step-new-%d' % n, params=dict(n=n)) for n in (1, 2, 4)] + [H(step_coarsen, 'step-coarsen-%d' % n, params=dict(n=n)) for n in (1, 2, 3)]
    B = dict(kind='bounded')
    out.append(H(constructed, bound='zero to two trees, six kinds of marks', searches=0, **B))
    for s in SHAPES:
        ex = s != 'quad' or tier == 'thorough'
        out.append(H(tree_queries, 'tree-queries-' + s, params=dict(shape=s), bound='tree shape %s, every combination of marks' % s if ex else 'tree shape %s, sampled marks' % s,
                     opts=dict(symbolic=ex), searches=5 if ex else 60, **B))
        if s in SMALL:
            out.append(H(tree_marks, 'tree-marks-' + s, params=dict(shape=s), bound='tree shape %s, every combination of marks' % s, searches=5, **B))
        out.append(H(tree_edit, 'tree-edit-' + s, params=dict(shape=s), bound='tree shape %s' % s, searches=5, **B))
    for f in FORESTS:
        bd = 'forest %s, every combination of marks' % FORESTS[f]
        out.append(H(forest_queries, 'forest-queries-' + f, params=dict(which=f), bound=bd, searches=5, **B))
        out.append(H(forest_edit, 'forest-edit-' + f, params=dict(which=f), bound=bd, searches=5, **B))
        if f == 'empty':
            continue
        big = f == 'two'
        for fn in (contained, refine, coarsen):
            if fn is refine and f == 'irregular':
                continue        # irregular nodes are split with an explicit number of children
            out.append(H(fn, fn.__name__ + '-' + f, params=dict(which=f), bound=bd if not big else 'forest %s, sampled marks' % FORESTS[f],
                         opts=dict(symbolic=not big), searches=150 if big else 5, budget=200, **B))
    return out
