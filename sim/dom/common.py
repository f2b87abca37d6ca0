"""Shared assembly machinery: how user code may spell the same network."""
import random

NAMES = ['R1', 'zz', 'A', 'b', 'Q', 'M_10', 'x9', 'elem', 'T', 'port', 'k', 'Src', 'V', 'n3', 'aa', 'Z', 'u_', 'LL', 'c0', 'd1']


# when set, the same network in the same words (names, junctions) is stated in the order this number gives
ORDER = [None]


class Assembler(object):
    """Creates elements and bonds of a network in a seeded order.

    decls: list of (key, factory) ; factory(built) -> element instance (may need other elements built: needs[key])
    joins: list of functions emitting bond actions: (needs: set of keys, action)
    """
    def __init__(self, sysobj, asm, base):
        self.sys = sysobj
        self.rng = random.Random(asm) if asm else None
        self.asm = asm
        self.order = random.Random(ORDER[0]) if ORDER[0] is not None else None
        self.built = {}
        self.base = base
        self.used = set()
        self.groups = []

    def pick(self, seq):
        if self.rng is None:
            return seq[0]
        return self.rng.choice(seq)

    def coin(self, p=0.5):
        return self.rng is not None and self.rng.random() < p

    def shuffle(self, lst):
        lst = list(lst)
        if self.rng is not None:
            self.rng.shuffle(lst)
        return lst

    def name(self, key):
        if self.order is not None:
            return random.Random('%s %s' % (self.asm, key)).choice(NAMES) + '_' + key
        if self.rng is None:
            return 'e_' + key
        for _ in range(50):
            nm = self.rng.choice(NAMES) + (str(self.rng.randrange(40)) if self.rng.random() < .7 else '') + ('_' if self.rng.random() < .2 else '')
            if nm not in self.used and not hasattr(type(self.sys), nm):
                break
        else:
            nm = 'e_' + key
        if nm in self.used or nm in ('system', 'root', 'own'):
            nm = 'e_' + key
        self.used.add(nm)
        return nm

    def place(self, key, inst):
        """attach an element to the system; sometimes inside a sub-assembly"""
        nm = 'x_' + self.name(key)
        parent = self.sys
        if self.order is not None:
            r = random.Random('%s %s place' % (self.asm, key))
            if self.rng is not None and r.random() < .2:
                g = 'grp%d' % r.randrange(2)
                if g not in self.used:
                    self.used.add(g)
                    self.sys.insert(self.base(), g)
                parent = self.sys[g]
        elif self.coin(.2):
            if not self.groups or self.coin(.4):
                g = 'grp{0}'.format(len(self.groups))
                gobj = self.sys.insert(self.base(), g)
                self.groups.append(gobj)
            parent = self.rng.choice(self.groups)
        if self.order.random() < .5 if self.order is not None else self.coin(.5):
            obj = parent.insert(inst, nm)
        else:
            setattr(parent.own, nm, inst)
            obj = getattr(parent, nm)
        self.built[key] = obj
        return obj

    def run(self, decls, actions):
        """decls: list of (key, needs, factory); actions: list of (needs, callable). All eventually executed."""
        if self.order is not None:
            todo_d, todo_a = list(decls), list(actions)
            self.order.shuffle(todo_d)
            self.order.shuffle(todo_a)
            eager = self.order.random() < .5
        else:
            todo_d = self.shuffle(decls)
            todo_a = self.shuffle(actions)
            eager = self.rng is not None and self.rng.random() < .5
        while todo_d or todo_a:
            progressed = False
            if todo_a and (eager or not todo_d):
                for i, (needs, act) in enumerate(todo_a):
                    if all(k in self.built for k in needs):
                        del todo_a[i]
                        act(self.built)
                        progressed = True
                        break
            if progressed:
                continue
            for i, (key, needs, fac) in enumerate(todo_d):
                if all(k in self.built for k in needs):
                    del todo_d[i]
                    inst = fac(self.built)
                    if inst is not None:
                        self.place(key, inst)
                    progressed = True
                    break
            if not progressed:
                raise RuntimeError('assembly stuck: %r' % [d[0] for d in todo_d])
        return self.built

    # -- joining k ports into one node ------------------------------------------------------
    def join(self, node, ports, make_conn, make_open, pfx='pe_'):
        """ports: list of (key, portname). Returns (decls, actions)."""
        k = len(ports)
        decls, acts = [], []
        sysobj = self.sys

        def get(built, p):
            obj = built[p[0]]
            for nm in p[1].split('.'):
                obj = getattr(obj, nm)
            return obj

        def bond(p, q):
            style = self.pick([0, 1, 2, 3]) if self.rng is not None else 0
            if self.order is not None:
                style = self.order.randrange(4)

            def act(built, p=p, q=q, style=style):
                a, b = get(built, p), get(built, q)
                if style == 0:
                    a.bond(b)
                elif style == 1:
                    b.bond(a)
                elif style == 2:
                    sysobj.bond(a, b)
                else:
                    sysobj.bond(b, a)
            return ((p[0], q[0]), act)

        if k == 1:
            if make_open and self.coin(.5):
                key = 'open_%s' % node
                decls.append((key, (), lambda built: make_open()))
                acts.append(bond(ports[0], (key, pfx + 'A')))
            return decls, acts
        ports = self.shuffle(ports)
        if k == 2:
            style = self.pick(['direct', 'direct', 'conn']) if make_conn else 'direct'
        else:
            style = self.pick(['star', 'tree', 'chain', 'conn', 'mixed'] if make_conn else ['star', 'tree', 'chain'])
        if style == 'direct':
            acts.append(bond(ports[0], ports[1]))
        elif style == 'star':
            for p in ports[1:]:
                acts.append(bond(ports[0], p))
        elif style == 'chain':
            for a, b in zip(ports, ports[1:]):
                acts.append(bond(a, b))
        elif style == 'tree':
            for i in range(1, k):
                acts.append(bond(ports[self.rng.randrange(i) if self.rng else 0], ports[i]))
        elif style == 'conn':
            key = 'conn_%s' % node
            extra = self.pick([0, 0, 1])
            how = self.pick(['n', 'n', 'connect'])
            if how == 'n' or extra:
                n = k + extra
                decls.append((key, (), lambda built: make_conn(N_ports=n)))
                slots = self.shuffle(range(n))
                for p, s in zip(ports, slots):
                    acts.append(bond(p, (key, pfx + '%d' % s)))
            else:
                cut = self.rng.randrange(k + 1) if self.rng else k
                mine, theirs = ports[:cut], ports[cut:]
                needs = tuple(p[0] for p in theirs)
                decls.append((key, needs, lambda built: make_conn(
                    N_ports=len(mine), connect=tuple(get(built, p) for p in theirs))))
                for i, p in enumerate(mine):
                    acts.append(bond(p, (key, pfx + '%d' % i)))
        else:   # mixed: an explicit junction for some, multi-bond for the rest
            key = 'conn_%s' % node
            m = max(2, k // 2)
            decls.append((key, (), lambda built: make_conn(N_ports=m)))
            for i in range(m):
                acts.append(bond(ports[i], (key, pfx + '%d' % i)))
            for p in ports[m:]:
                if self.coin(.5):
                    acts.append(bond(ports[self.rng.randrange(m)], p))
                else:
                    acts.append(bond((key, pfx + '%d' % self.rng.randrange(m)), p))
        if acts and self.coin(.12):
            # the same bond stated again: the two terminals are already connected
            acts.append(self.pick(acts))
        return decls, acts


# ---- user-supplied functions ---------------------------------------------------------------------

USER = [None]


def user():
    """called by every user-supplied spectrum function handed to the system; a check may make it fail"""
    if USER[0] is not None:
        USER[0]()
