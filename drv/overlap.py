# -*- coding: utf-8 -*-
"""Runs several drivers at once, one statement of the library at a time.

The library is loaded with a call before every statement of its functions;
that call hands over to another user's thread, or drops the call under way,
when the schedule says so.  Only one thread runs at any time."""
import ast
import imp
import os
import sys
import threading

import common


class Marked(object):
    """imports the library with the marks"""
    def __init__(self, repo, step):
        self.repo, self.step, self.at, self.code = repo, step, {}, {}

    def find_module(self, name, path=None):
        if name == 'messaging' or name.startswith('messaging.'):
            p = os.path.join(self.repo, *name.split('.'))
            if os.path.isdir(p):
                self.at[name] = (os.path.join(p, '__init__.py'), p)
            elif os.path.exists(p + '.py'):
                self.at[name] = (p + '.py', None)
            else:
                return None
            return self

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        f, pk = self.at[name]
        m = sys.modules[name] = imp.new_module(name)
        m.__file__, m.__loader__ = f, self
        if pk:
            m.__path__ = [pk]
        m.__package__ = name if pk else name.rpartition('.')[0]
        m.__dict__['step__'] = self.step
        try:
            if f not in self.code:
                with open(f) as h:
                    t = ast.parse(h.read(), f)
                NAMES[0] = names_of(t.body)
                for x in t.body:
                    mark(x)
                self.code[f] = compile(t, f, 'exec')
            exec self.code[f] in m.__dict__
        except:
            del sys.modules[name]
            raise
        return m


def fresh():
    """the library, and the drivers that use it, as nobody has used them"""
    here = os.path.dirname(os.path.abspath(__file__))
    for name, m in sys.modules.items():
        if name == 'messaging' or name.startswith('messaging.'):
            del sys.modules[name]
        elif m is not None and name not in ('__main__', 'common', 'overlap', 'c27') and \
                os.path.dirname(os.path.abspath(getattr(m, '__file__', None) or '/')) == here:
            del sys.modules[name]


SITES = []
# sites that store into what calls share, or make another name for it, and
# into what outlives the call: what follows them is worth an interruption
SHARED, OWN = set(), set()
CHANGERS = set('append extend insert pop remove clear update setdefault popitem add discard sort reverse'.split())


def root(x):
    """the name at the bottom of an expression, and whether there is more to it"""
    more = False
    while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
        if isinstance(x, ast.Attribute) and x.attr == '__class__':
            return 'cls', True
        x, more = x.func if isinstance(x, ast.Call) else x.value, True
    return x.id if isinstance(x, ast.Name) else None, more


def targets(t):
    if isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            for x in targets(e):
                yield x
    else:
        yield root(t)


def classify(s, site, shared):
    """shared: the names of a module that hold values"""
    found = []
    if isinstance(s, (ast.Assign, ast.Delete)):
        for t in s.targets:
            found += [(r, m) for r, m in targets(t)]
    elif isinstance(s, ast.AugAssign):
        found += list(targets(s.target))
    if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and s.value is not None:
        for x in ast.walk(s.value):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGERS:
                found.append((root(x.func.value)[0], True))
    if isinstance(s, ast.Assign) and isinstance(s.value, (ast.Name, ast.Attribute)):
        r, m = root(s.value)
        if r in shared and (r == 'cls' or not m):
            SHARED.add(site)
    if isinstance(s, ast.Global):
        SHARED.add(site)
    for r, m in found:
        if r in shared and m or r in WRITTEN:
            SHARED.add(site)
        elif r == 'self' and m:
            OWN.add(site)


WRITTEN = set()         # by global statements of the function at hand


def names_of(body):
    """the names a module gives to values and classes"""
    out = set(['cls'])
    for s in body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                out.update([r for r, m in targets(t) if r and not m])
        elif isinstance(s, ast.ClassDef):
            out.add(s.name)
        elif isinstance(s, (ast.If, ast.TryExcept, ast.For)):
            out |= names_of(s.body)
    return out


NAMES = [set()]


def marked(stmts, doc=False):
    out = []
    for i, s in enumerate(stmts):
        if not (doc and i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Str)):
            SITES.append(s)
            classify(s, len(SITES), NAMES[0])
            c = ast.Expr(value=ast.Call(func=ast.Name(id='step__', ctx=ast.Load()), args=[ast.Num(n=len(SITES))],
                                        keywords=[], starargs=None, kwargs=None))
            ast.copy_location(c, s)
            ast.fix_missing_locations(c)
            out.append(c)
        mark(s)
        out.append(s)
    return out


BLOCKS = (ast.If, ast.For, ast.While, ast.With, ast.TryExcept, ast.TryFinally)


def mark(n):
    if isinstance(n, ast.FunctionDef):
        WRITTEN.clear()
        for x in ast.walk(n):
            if isinstance(x, ast.Global):
                WRITTEN.update(x.names)
        n.body = marked(n.body, True)
    elif isinstance(n, ast.ClassDef):
        for x in n.body:
            mark(x)
    elif isinstance(n, BLOCKS):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(n, f, None)
            if isinstance(v, list) and v:
                setattr(n, f, marked(v))
        for h in getattr(n, 'handlers', None) or []:
            h.body = marked(h.body)


class Dropped(Exception):
    pass


class Interrupt(KeyboardInterrupt):
    pass


class Enough(BaseException):
    pass


# calls that may be made again when they were dropped
AGAIN = set('''to_pdu SmsDeliver observe UserDataHeader encode decode data_parts smil message page part from_data
extract extract_push_notification is_mms_notification is_a_wap_push_notification is_push is_mms relative absolute
pack7 pack8 pack16 unpack_msg unpack_msg2 swap swap_number to_array is_gsm_text encode_str encode_bytes
encode_content_type_value encode_parameter encode_header pdus dom'''.split())


class Schedule(object):
    def __init__(self):
        self.on = False

    def start(self, moves, quantum, n, rng):
        """quantum: steps between moves, 0: ever another number;
        sparse: the steps of a loop count twice for each call only"""
        self.moves, self.quantum, self.rng = moves, quantum, rng
        self.sparse = rng.random() < .6
        self.k = 0
        self.left = self.next()
        self.turn = None
        self.alive = [False] * n
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.users = []
        self.on = True

    def next(self):
        return self.quantum or self.rng.choice((1, 1, 2, 3, 5, 8, 13, 21, 34, 55, 144))

    def step(self, site):
        """before a statement of the library"""
        if not self.on:
            return
        u = self.users[self.turn]
        last, u.last = u.last, site
        if last in SHARED and self.rng.random() < .3 or last in OWN and self.rng.random() < .06:
            return self.move(self.rng.choice([i for i in range(len(self.alive)) if self.alive[i]]),
                             self.rng.choice(('go', 'go', 'drop')))
        if self.sparse:
            seen = u.seen
            k = seen.get(site, 0)
            if k > 1:
                return
            seen[site] = k + 1
        self.left -= 1
        if self.left > 0:
            return
        p, kind = self.moves[self.k % len(self.moves)]
        self.k += 1
        self.left = self.next()
        self.move(p - 1, kind)

    def move(self, q, kind):
        me = self.turn
        if q < len(self.alive) and self.alive[q]:
            if kind == 'drop' and self.users[q].open:
                self.users[q].drop = True
            if q != me:
                self.users[me].cuts += 1
                self.to(q)
        u = self.users[me]
        if u.drop and u.open:
            u.drop, u.open, u.dropped = False, False, True
            raise u.rng.choice((Dropped, Interrupt))('dropped')

    def to(self, q):
        me = self.turn
        self.turn = q
        self.sems[q].release()
        if me is not None:
            self.sems[me].acquire()

    def over(self, me):
        """me is done: somebody else goes on"""
        self.alive[me] = False
        for q in range(len(self.alive)):
            if self.alive[q]:
                self.turn = q
                self.sems[q].release()
                return


SCHEDULE = Schedule()


class User(common.Ctx):
    """what a driver sees of the context when it is one of several"""
    def __init__(self, ctx, by, of, limit):
        self.main, self.by, self.of, self.limit = ctx, by, of, limit
        self.prop, self.tier = of, 'quick'
        self.rng, self.common = common.random.Random(ctx.rng.random()), ctx.common
        # a limited number of calls: past the enumerations, mostly
        self.nshards = self.rng.choice((1, 7, 97, 97, 997, 997))
        self.shard = self.rng.randrange(self.nshards)
        self.scratch = os.path.join(ctx.scratch, 'u%d' % by)
        if not os.path.isdir(self.scratch):
            os.mkdir(self.scratch)
        self.cuts, self.seen, self.last = 0, {}, 0
        self.open = self.drop = self.dropped = False

    def n(self, quick, thorough):
        return quick

    def behaviours(self):
        return []

    def emit(self, op, **fields):
        fields['op'] = op
        op = 'overlapped' if self.cuts else 'alone'
        self.main.emit(op, by=self.by, of=self.of, cuts=self.cuts, e=fields)
        self.main.deadline = common.time.time() + 60
        self.cuts = 0
        self.limit -= 1
        if self.limit <= 0:
            raise Enough()

    def run(self, what, fn, *args, **kw):
        self.main.doing = what
        for k in range(3):
            self.dropped, self.drop = False, False
            self.seen = {}
            self.open = k < 2 and what in AGAIN
            try:
                try:
                    got = fn(*args, **kw), None
                except (SystemExit, Enough):
                    raise
                except Exception, e:
                    got = None, e
                except:                       # Java exceptions, old-style classes
                    got = None, sys.exc_info()[1]
            finally:
                self.open = False
            if not self.dropped:
                return got
            self.main.emit('drop', by=self.by, of=self.of, what=what)
        return got


def together(ctx, drivers, moves, quantum, limit):
    s = SCHEDULE
    s.start(moves, quantum, len(drivers), ctx.rng)
    threads = []
    for i, (of, gen) in enumerate(drivers):
        u = User(ctx, i + 1, of, limit)
        ctx.emit('user', by=i + 1, of=of)
        s.users.append(u)
        s.alive[i] = True

        def body(i=i, u=u, gen=gen):
            s.sems[i].acquire()
            try:
                try:
                    gen(u)
                except Enough:
                    pass
                except Exception, e:
                    import traceback
                    traceback.print_exc()
                    ctx.emit('crash', exc=common.excnames(e), by=i + 1, of=u.of,
                             at=''.join([c for c in repr(traceback.format_exc()[-1500:])
                                         if 32 <= ord(c) < 127 and c not in '"\\']))
            finally:
                s.over(i)
        t = threading.Thread(target=body)
        t.setDaemon(True)
        threads.append(t)
    for t in threads:
        t.start()
    s.turn = ctx.rng.randrange(len(drivers))
    s.sems[s.turn].release()
    for t in threads:
        t.join()
    s.on = False
    ctx.deadline = None
