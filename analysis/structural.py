"""Rules over the call graph, the control-flow graph, types and effects of the
type-checked program: panic containment, memory safety, termination,
determinism and effects."""
import re
from program import cfg

LAZY = ('lazy_static::__lazy_static_internal', 'lazy_static::lazy::__lazy_static_create', '__lazy_static_internal',
        '__lazy_static_create', 'lazy_static::lazy_static')


class V:
    def __init__(self, rule, where, what, span=''):
        self.rule, self.where, self.what, self.span = rule, where, what, span

    def d(self):
        return {'rule': self.rule, 'function': self.where, 'what': self.what, 'at': self.span}

    def key(self):
        return '%s|%s|%s' % (self.rule, self.where, self.what)


def fninfo(o):
    """function constant of an operand, or None"""
    if o[0] == 'const' and isinstance(o[2], list) and o[2] and o[2][0] == 'fn':
        return o[2][1]
    return None


def closures_in(p, t, out=None, seen=None):
    """closure bodies named by a type"""
    if out is None:
        out, seen = set(), set()
    if not isinstance(t, int) or t in seen:
        return out
    seen.add(t)
    x = p.types[t]
    if x[0] == 'closure':
        out.add(x[1])
        for u in x[2]:
            closures_in(p, u, out, seen)
    elif x[0] == 'adt':
        for a in x[2]:
            closures_in(p, a, out, seen)
    elif x[0] in ('ref', 'ptr', 'slice', 'array'):
        closures_in(p, x[1], out, seen)
    elif x[0] == 'tuple':
        for a in x[1]:
            closures_in(p, a, out, seen)
    elif x[0] == 'fndef':
        out.add(x[1])
    return out


class Site:
    __slots__ = ('body', 'block', 'info', 'path', 'span', 'args', 'dest')


class Graph:
    def __init__(self, p):
        self.p = p
        self.sites = []        # every call site
        self.edges = {}        # body id -> set of body ids
        self.guarded = {}      # body id -> closures that only run under catch_unwind
        self.asserts = {}
        self.blocks = 0
        impls = {}
        for im in p.impls:
            for tm, m in im['items']:
                impls.setdefault(tm, set()).add(m)
        self.impls = impls
        bodies = list(p.bodies.values()) + list(p.promoted.values())
        for b in bodies:
            e = self.edges.setdefault(b.id, set())
            g = set()
            other = set()
            for i, bl in enumerate(b.blocks):
                self.blocks += 1
                t = bl['t']
                ops = []
                for s in bl['s']:
                    if s[0] == '=':
                        self.scan(s[2], other)
                if t[0] == 'call':
                    f = fninfo(t[1])
                    for o in t[2]:
                        self.scan(o, other)
                    s = Site()
                    s.body, s.block, s.info, s.span, s.args, s.dest = b, i, f, bl['sp'], t[2], t[3]
                    s.path = f['path'] if f else '(indirect)'
                    self.sites.append(s)
                    if f:
                        tgt = f.get('res') or f['id']
                        if tgt in p.bodies:
                            e.add(tgt)
                        elif f['id'] in impls and (f['id'].startswith(p.crate + '::')) and f.get('res') in (None, f['id']):
                            e |= {m for m in impls[f['id']] if m in p.bodies}
                            if f['id'] in p.bodies:
                                e.add(f['id'])
                        elif f['id'] in p.bodies:
                            e.add(f['id'])
                        cl = set()
                        for a in list(f.get('args') or []) + list(f.get('rargs') or []):
                            cl |= closures_in(p, a)
                        cl = {c for c in cl if c in p.bodies}
                        if f['path'] in ('std::panic::catch_unwind', 'std::panicking::try', 'std::panicking::catch_unwind'):
                            g |= cl
                        else:
                            e |= cl
                elif t[0] == 'assert':
                    self.asserts.setdefault(b.id, []).append((t[3], bl['sp'], bl['c']))
            self.guarded[b.id] = g
            e |= {o for o in other if o in p.bodies and o not in g}
            # a closure that never leaves its creator except into catch_unwind
        for b in bodies:
            if '{closure' in b.id and b.id.rsplit('::{closure', 1)[0] in p.bodies:
                par = b.id.rsplit('::{closure', 1)[0]
                if b.id not in self.guarded.get(par, ()):
                    self.edges[par].add(b.id)

    def scan(self, x, out):
        todo = [x]
        while todo:
            y = todo.pop()
            if isinstance(y, dict):
                for k in ('id', 'res'):
                    if isinstance(y.get(k), str):
                        out.add(y[k])
            elif isinstance(y, (list, tuple)):
                if len(y) == 2 and y[0] == 'closure' and isinstance(y[1], str):
                    continue
                todo += y

    def reach(self, roots, stop=lambda x: False, guarded=True):
        """ids reachable; guarded=False leaves out what only runs under catch_unwind"""
        par = {r: None for r in roots}
        todo = list(roots)
        while todo:
            x = todo.pop()
            nx = set(self.edges.get(x, ()))
            if guarded:
                nx |= self.guarded.get(x, set())
            for y in nx:
                if y not in par and not stop(y):
                    par[y] = x
                    todo.append(y)
        return par

    def chain(self, par, x):
        out = []
        while x is not None:
            b = self.p.bodies.get(x)
            out.append(b.qual if b is not None else x)
            x = par[x]
        return ' <- '.join(out)


PANICKERS = re.compile(r'(^std::panicking::|^core::panicking::|::unwrap$|::expect$|::unwrap_err$|::expect_err$|Index::index$|IndexMut::index_mut$|'
                       r'::copy_from_slice$|::split_at|::swap$|^std::panic::resume_unwind$|::remove$|::drain$|::panic_any$|RefCell::<T>::borrow|'
                       r'::insert_at$|::clone_from_slice$|::step_by$|::chunks$|::chunks_mut$|::par_chunks_mut$|::chunks_exact)')
ABORTERS = re.compile(r'(^std::process::(exit|abort)|^std::intrinsics::abort|^core::intrinsics::abort|^std::panic::(set_hook|take_hook|always_abort|update_hook)|'
                      r'std::alloc::handle_alloc_error|^std::thread::.*(spawn|scope|park|sleep))')


def owner(p, bid):
    o = bid.split('::{closure')[0]
    b = p.bodies.get(o) or p.bodies.get(bid)
    return b.qual if b is not None else bid


def rootapi(p):
    """public functions that decode a file into an image with contained panics"""
    out = []
    for b in p.bodies.values():
        if b.kind == 'Fn' and b.pub and b.id.count('::') == 1:
            out.append(b)
    return out


def contain(p, G, cargo_toml):
    """C01: nothing that can panic runs outside catch_unwind below the public decode entry points"""
    vs, n = [], {'roots': 0, 'uncontained_functions': 0, 'contained_functions': 0, 'sites': 0}
    roots = rootapi(p)
    safe = [b for b in p.bodies.values() if b.qual == 'decoders::<RawLoader>::decode_safe']
    rs = [b for b in roots if is_imgresult(p, b)] + safe
    n['roots'] = len(rs)
    if not [b for b in rs if b.kind == 'Fn']:
        vs.append(V('entry', 'crate root', 'no public function of the crate root returns a decoded image'))
    lazy = lambda x: x.endswith('__static_ref_initialize') or '::__stability' in x
    u = G.reach([b.id for b in rs], stop=lazy, guarded=False)
    allr = G.reach([b.id for b in rs], guarded=True)
    n['uncontained_functions'] = len(u)
    n['contained_functions'] = len(allr) - len(u)
    imgs = [x for x in allr if x.split('::')[-1] == 'image' and p.bodies[x].itrait]
    n['decoders_reached'] = len(imgs)
    for x in sorted(u):
        b = p.bodies.get(x)
        if b is None:
            continue
        for kind, sp, cl in G.asserts.get(x, []):
            if not cl:
                n['sites'] += 1
                vs.append(V('uncontained-panic', b.qual, '%s check can panic outside catch_unwind: %s' % (kind, G.chain(u, x)), sp))
    for s in G.sites:
        inu = s.body.id in u
        if s.body.blocks[s.block]['c']:
            continue
        if inu and s.body.id in p.bodies:
            n['sites'] += 1
            if PANICKERS.search(s.path) or diverges(s):
                vs.append(V('uncontained-panic', s.body.qual, '%s can panic outside catch_unwind: %s' % (s.path, G.chain(u, s.body.id)), s.span))
            if s.path in ('std::fs::File::open', 'alloc::io::read::Read::read_to_end'):
                vs.append(V('uncontained-io', s.body.qual, '%s outside catch_unwind: %s' % (s.path, G.chain(u, s.body.id)), s.span))
        if ABORTERS.search(s.path) and s.body.id in p.bodies:
            vs.append(V('abort', s.body.qual, 'calls %s' % s.path, s.span))
    for x in imgs:
        if x in u:
            vs.append(V('uncontained-decoder', p.bodies[x].qual, 'decoder runs outside catch_unwind: %s' % G.chain(u, x)))
    for b in p.bodies.values():
        if b.itrait and b.itrait.endswith('::Drop'):
            for s in G.sites:
                if s.body is b and (PANICKERS.search(s.path) or diverges(s)):
                    vs.append(V('panic-in-drop', b.qual, '%s in a destructor' % s.path, s.span))
    for m in re.finditer(r'^\s*panic\s*=\s*"abort"', cargo_toml, re.M):
        vs.append(V('profile', 'Cargo.toml', 'panic = "abort" turns a contained panic into an abort'))
    return vs, n


def diverges(s):
    t = s.body.blocks[s.block]['t']
    return t[4] is None


def is_imgresult(p, b):
    t = p.types[b.locals[0]]
    if t[0] == 'adt' and t[1] == 'core::result::Result' and t[2] and isinstance(t[2][0], int):
        x = p.types[t[2][0]]
        return x[0] == 'adt' and x[1].endswith('::RawImage')
    return False


def memsafe(p, G):
    """C02: no unsafe code besides what lazy_static and derive expand to"""
    vs, n = [], {'unsafe_constructs': 0, 'from_trusted_macros': 0, 'bodies': len(p.bodies), 'unsafe_calls': 0}
    for kind, where, origin, nm in p.unsafe:
        if kind == 'static':
            continue
        n['unsafe_constructs'] += 1
        if any(origin.startswith(x) or origin.endswith(x) for x in LAZY) or origin.startswith('core::clone::Clone') \
                or (kind == 'unsafe impl' and origin.startswith('core::')):
            n['from_trusted_macros'] += 1
            continue
        vs.append(V('unsafe', nm, '%s written in the crate (%s)' % (kind, origin), where))
    for b in p.bodies.values():
        if b.unsafe and not b.id.endswith('::deref::__stability'):
            vs.append(V('unsafe-fn', b.qual, 'unsafe fn', b.span))
    return vs, n


def sharedstate(p):
    """types that allow writing through a shared reference"""
    return re.compile(r'(core::cell::|std::sync::(mutex|rwlock|poison|atomic|mpsc)|core::sync::atomic|std::thread::local|std::sync::nonpoison|std::sync::Mutex|std::sync::RwLock|core::cell::UnsafeCell)')


NONDET = re.compile(r'(^time::|^std::time::|^std::env::|^std::thread::|^rand|getrandom|^std::process::id|RandomState|DefaultHasher|'
                    r'std::collections::hash::(map|set)::Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|into_iter|drain|retain|into_keys|into_values|extract_if)|'
                    r'^rayon::(current|iter::.*(find_any|find_map_any|reduce|fold|sum|product|position_any|any|all|min|max|try_)))')
RAYONOK = re.compile(r'^rayon::(iter::(IndexedParallelIterator::(enumerate|zip|rev|skip|take|len|chunks|with_min_len|with_max_len|collect_into_vec)|'
                     r'ParallelIterator::(for_each|map|filter|cloned|copied|collect|for_each_with|for_each_init|inspect|count)|'
                     r'IntoParallelIterator::into_par_iter|IntoParallelRefIterator::par_iter|IntoParallelRefMutIterator::par_iter_mut)|'
                     r'slice::(ParallelSlice|ParallelSliceMut)(::<.*>)?::(par_chunks|par_chunks_mut|par_chunks_exact|par_chunks_exact_mut|par_windows))')


def determinism(p, G):
    """C04: the decoded image is a function of the bytes alone"""
    vs, n = [], {'call_sites': len(G.sites), 'parallel_sites': 0, 'parallel_closures': 0, 'clock_reads': 0, 'statics': 0, 'hashmap_sites': 0}
    inner = sharedstate(p)
    for s in G.sites:
        f = s.info
        pth = s.path
        if 'HashMap' in pth or 'HashSet' in pth:
            n['hashmap_sites'] += 1
        if f and pth.endswith('IntoIterator::into_iter') and f.get('args'):
            for a in f['args']:
                x = deref(p, a)
                if x[0] == 'adt' and 'collections::hash' in x[1]:
                    vs.append(V('hash-order', s.body.qual, 'iterates a hash map, whose order differs between runs', s.span))
        if pth.startswith('rayon::'):
            n['parallel_sites'] += 1
            if not RAYONOK.search(pth):
                vs.append(V('schedule', s.body.qual, '%s may depend on how work is split between threads' % pth, s.span))
            continue
        if re.match(r'^(time::|std::time::)', pth):
            n['clock_reads'] += 1
            esc = clock_escapes(p, G, s)
            if esc:
                vs.append(V('clock', s.body.qual, 'the value of %s %s' % (pth, esc), s.span))
            continue
        if NONDET.search(pth):
            vs.append(V('nondeterminism', s.body.qual, 'uses %s' % pth, s.span))
    # interior mutability anywhere in types the crate names
    seen = set()
    for i, t in enumerate(p.types):
        if t[0] == 'adt' and inner.search(t[1]) and t[1] not in seen:
            if t[1].startswith('core::sync::atomic') or True:
                users = [b for b in p.bodies.values() if i in b.locals and '__stability' not in b.id and not b.id.endswith('::deref')]
                for b in users:
                    vs.append(V('shared-state', b.qual, 'uses %s, which can be written through a shared reference' % t[1], b.span))
                if users:
                    seen.add(t[1])
    for kind, where, origin, nm in p.unsafe:
        if kind == 'static':
            n['statics'] += 1
    for kind, where, origin, nm in p.unsafe:
        if kind == 'static mut' and not any(origin.startswith(x) or origin.endswith(x) for x in LAZY):
            vs.append(V('shared-state', nm, 'static mut', where))
    for b in p.bodies.values():
        if '{closure' in b.id:
            n['parallel_closures'] += 1
    return vs, n


def deref(p, t):
    x = p.types[t] if isinstance(t, int) else ['?']
    while x[0] in ('ref', 'ptr'):
        x = p.types[x[1]]
    return x


PRINTS = re.compile(r'(std::io::stdio::_e?print|core::fmt::rt::Argument|core::fmt::Arguments)')


def clock_escapes(p, G, s):
    """does a clock reading influence anything but printed text? (forward taint within the function)"""
    b = s.body
    taint = {s.dest[0]}
    bad = None
    ch = True
    while ch:
        ch = False
        for i, bl in enumerate(b.blocks):
            for st in bl['s']:
                if st[0] != '=':
                    continue
                if uses(st[2]) & taint and st[1][0] not in taint:
                    if st[1][1] and any(e[0] == '*' for e in st[1][1]):
                        return 'is stored through a reference'
                    taint.add(st[1][0])
                    ch = True
            t = bl['t']
            if t[0] == 'call':
                if any(uses(o) & taint for o in t[2]):
                    f = fninfo(t[1])
                    pth = f['path'] if f else '?'
                    if PRINTS.search(pth) or re.search(r'(fmt::format|must_use|Sub::sub|Div::div|Duration|elapsed|Instant|as_)', pth):
                        if t[3][0] not in taint and not pth.startswith('std::io::stdio::'):
                            taint.add(t[3][0])
                            ch = True
                    else:
                        return 'is passed to %s' % pth
    if 0 in taint:
        return 'is returned'
    for bl in b.blocks:
        if bl['t'][0] == 'switch' and uses(bl['t'][1]) & taint:
            return 'decides a branch'
    return None


def uses(x):
    out = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (list, tuple)):
            if len(y) == 2 and isinstance(y[0], int) and not isinstance(y[0], bool) and isinstance(y[1], list):
                out.add(y[0])
                for e in y[1]:
                    if e and e[0] == 'i':
                        out.add(e[1])
                continue
            if y and y[0] == 'const':
                continue
            todo += y
    return out


IO = re.compile(r'(^std::fs::|^std::net::|^std::process::|^std::os::|^std::env::(set|remove|set_current)|^std::io::(copy|Write)|^core::io::write::Write|^std::io::Write|::libc::|^libc::|'
                r'^alloc::io::(write|buffered)|^std::io::stdio::(stdin|stdout)|^std::io::impls|^std::io::Stdin)')


def effects(p, G, bins):
    """C20: the library only ever reads the named file; the converter writes only its output"""
    vs, n = [], {'library_call_sites': len(G.sites), 'io_sites': [], 'binaries': {}}
    for s in G.sites:
        if IO.search(s.path):
            if s.path == 'std::fs::File::open':
                n['io_sites'].append('%s: %s' % (s.body.qual, s.path))
                own = owner(p, s.body.id)
                b = s.body
                if not path_is_param(p, s):
                    vs.append(V('other-file', b.qual, 'opens a file other than the one it was asked to decode', s.span))
                continue
            if s.path in ('std::fs::read',):
                n['io_sites'].append('%s: %s' % (s.body.qual, s.path))
                continue
            if s.path.startswith('std::fs::File::') and re.search(r'::(metadata|try_clone)$', s.path) or s.path.startswith('std::fs::Metadata'):
                continue
            vs.append(V('effect', s.body.qual, 'the library calls %s' % s.path, s.span))
    for bn, (bp, bg) in sorted(bins.items()):
        rows = []
        for s in bg.sites:
            if IO.search(s.path):
                rows.append(s.path)
                ok = s.path in ('std::fs::File::open', 'std::process::exit') or s.path.startswith('alloc::io::buffered') or s.path.startswith('std::io::stdio')
                if bn == 'rawloader':
                    ok = ok or s.path in ('std::fs::File::create', 'core::io::write::Write::write_all', 'std::io::Write::write_all',
                                          'core::io::write::Write::flush', 'core::io::write::Write::write_fmt', 'core::io::write::Write::write')
                if not ok:
                    vs.append(V('effect', '%s: %s' % (bn, s.body.qual), 'the program calls %s' % s.path, s.span))
        if bn == 'rawloader' and rows.count('std::fs::File::create') > 1:
            vs.append(V('effect', 'rawloader: main', 'creates more than one file'))
        n['binaries'][bn] = sorted(set(rows))
    return vs, n


def path_is_param(p, s):
    """does the path come from outside (a parameter or a captured variable), not from a constant or another computation?"""
    b = s.body
    a = s.args[0]
    if a[0] == 'const':
        return False
    # backward slice inside the body
    need = {a[1][0]}
    ch = True
    while ch:
        ch = False
        for bl in b.blocks:
            for st in bl['s']:
                if st[0] == '=' and st[1][0] in need:
                    r = st[2]
                    if r[0] == 'use' and r[1][0] == 'const':
                        return False
                    for u in uses(r):
                        if u not in need:
                            need.add(u)
                            ch = True
            t = bl['t']
            if t[0] == 'call' and t[3][0] in need:
                f = fninfo(t[1])
                if f and re.search(r'(deref|as_ref|Path|borrow|clone|to_string|to_owned|as_str|From::from|Into::into|String)', f['path']):
                    for o in t[2]:
                        for u in uses(o):
                            if u not in need:
                                need.add(u)
                                ch = True
                else:
                    return False
    return any(1 <= x <= b.argc for x in need)


# ---------------------------------------------------------------- termination
FINITE = re.compile(r'(core::ops::range::Range$|core::ops::range::RangeInclusive$|core::slice::iter::|alloc::vec::into_iter|alloc::vec::drain|'
                    r'alloc::collections::|std::collections::hash::|hashbrown::|core::str::iter::|core::option::|core::result::|core::array::iter|'
                    r'alloc::string::|core::char::|core::iter::sources::(once|empty)|core::iter::range::)')
WRAP = re.compile(r'(core::iter::adapters::|itertools::|toml::|core::iter::Rev|rayon::)')
ANYFIN = re.compile(r'adapters::(zip::Zip|take::Take)$')
INFINITE = re.compile(r'(core::ops::range::RangeFrom|core::iter::sources::(repeat|successors|from_fn|repeat_with)|adapters::cycle)')


def finite(p, t):
    x = deref(p, t)
    if x[0] == 'adt':
        nm = x[1]
        if INFINITE.search(nm):
            return False
        if FINITE.search(nm):
            return True
        if WRAP.search(nm):
            subs = [finite(p, a) for a in x[2] if isinstance(a, int) and p.types[a][0] != 'closure']
            if ANYFIN.search(nm):
                return any(subs) or 'take::Take' in nm
            return all(x is not False for x in subs) and any(x for x in subs)
    if x[0] == 'dyn':
        return None
    return None


def iterdriven(p, b, h):
    """the loop calls next() on one finite iterator, made outside it, on every way round"""
    c = cfg(b)
    L = c.loops[h]
    latches = [x for x in L if h in c.succ[x]]
    for x in L:
        t = b.blocks[x]['t']
        if t[0] != 'call':
            continue
        f = fninfo(t[1])
        if not f or not re.search(r'(Iterator::next|Iterator::next_back)$', f['path']):
            continue
        if not all(c.dom(x, l) for l in latches):
            continue
        if not f.get('args') or finite(p, f['args'][0]) is not True:
            continue
        return True
    return False


def recursion(p, G):
    """strongly connected components of the call graph"""
    ids = list(p.bodies)
    idx, low, on, st, out = {}, {}, set(), [], []
    cnt = [0]
    for r in ids:
        if r in idx:
            continue
        work = [(r, iter(sorted(G.edges.get(r, set()) | G.guarded.get(r, set()))))]
        idx[r] = low[r] = cnt[0]
        cnt[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in p.bodies:
                    continue
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(G.edges.get(w, set()) | G.guarded.get(w, set())))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in G.edges.get(v, ()):
                        out.append(comp)
    return out


def derived(b, l, d=0, seen=None):
    """the local is computed from a parameter (or a captured variable)"""
    seen = set() if seen is None else seen
    if 1 <= l <= b.argc:
        return True
    if l in seen or d > 8:
        return False
    seen.add(l)
    for r in defs2(b, l):
        if any(derived(b, x, d + 1, seen) for x in uses(r)):
            return True
    return False


def defs2(b, l):
    """like defs, with the operands of calls"""
    out = []
    for bl in b.blocks:
        for st in bl['s']:
            if st[0] == '=' and st[1][0] == l and not st[1][1]:
                out.append(st[2])
        t = bl['t']
        if t[0] == 'call' and t[3][0] == l:
            out.append(t[2])
    return out


def capkey(b, pl):
    """key of a parameter place: its number, or a captured variable of a closure"""
    l, pr = pl
    if not 1 <= l <= b.argc:
        return None
    fs = [e for e in pr if e[0] == 'f']
    if '{closure' in b.id and l == 1:
        return ('cap', fs[0][1]) if len(fs) == 1 else None
    return None if fs else l


def linear(b, pl, d=0):
    """(parameter, constant): the place holds that parameter plus the constant; else None"""
    k = capkey(b, pl)
    if k is not None:
        return k, 0
    l = pl[0]
    if 1 <= l <= b.argc or d > 12 or any(e[0] not in ('f', 'd') for e in pl[1]):
        return None
    ds = defs2(b, l)
    if len(ds) != 1:
        return None
    r = ds[0]
    if r[0] in ('use', 'cast'):
        o = next((x for x in r[1:] if isinstance(x, list) and x and x[0] in ('copy', 'move')), None)
        return linear(b, o[1], d + 1) if o else None
    if r[0] == 'ref':
        q = next((x for x in r[1:] if isinstance(x, list) and len(x) == 2 and isinstance(x[0], int)), None)
        return linear(b, q, d + 1) if q else None
    if r[0] == 'bin' and r[1][:3] in ('Add', 'Sub'):
        for q, w in ((r[2], r[3]), (r[3], r[2])):
            if q[0] in ('copy', 'move') and w[0] == 'const':
                if r[1].startswith('Sub') and q is r[3]:
                    continue
                x = linear(b, q[1], d + 1)
                c = constval(w)
                c = 1 if c is None else c
                return x and (x[0], x[1] + (c if r[1].startswith('Add') else -c))
    return None


def constval(w):
    try:
        return int(w[2][1])
    except (ValueError, IndexError, TypeError):
        return None


def guards(b, key, sign):
    """edges (block, successor) on which the parameter is bounded (above for sign > 0, below for sign < 0) by a constant"""
    out = []

    def only(x, d=0, seen=None):
        """a value computed from the parameter alone"""
        seen = set() if seen is None else seen
        if x == key or (isinstance(key, tuple) and x == 1):
            return True
        if 1 <= x <= b.argc or d > 8 or x in seen:
            return False
        seen.add(x)
        ds = defs2(b, x)
        if len(ds) != 1:
            return False
        us = uses(ds[0])
        return bool(us) and all(only(u, d + 1, seen) for u in us)

    def cond(l, d=0):
        """('up' | 'down' | 'ne' | 'any', polarity) for a boolean local"""
        ds = defs2(b, l)
        if len(ds) != 1 or d > 8:
            return None
        r = ds[0]
        if r[0] == 'use' and r[1][0] in ('copy', 'move') and not r[1][1][1]:
            return cond(r[1][1][0], d + 1)
        if r[0] == 'un' and r[1] == 'Not' and r[2][0] in ('copy', 'move'):
            c = cond(r[2][1][0], d + 1)
            return c and (c[0], not c[1])
        if r[0] == 'bin' and r[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            op = r[1]
            for q, w, flip in ((r[2], r[3], False), (r[3], r[2], True)):
                if q[0] in ('copy', 'move') and w[0] == 'const':
                    x = linear(b, q[1])
                    if x and x[0] == key:
                        if op in ('Eq', 'Ne'):
                            return 'ne', op == 'Ne'
                        up = op in ('Lt', 'Le')
                        return ('up' if up != flip else 'down'), True
            return None
        if only(l):
            return 'any', True
        return None
    for i, bl in enumerate(b.blocks):
        t = bl['t']
        if t[0] != 'switch' or t[1][0] not in ('copy', 'move'):
            continue
        x = linear(b, t[1][1])
        if x and x[0] == key:       # match on the parameter itself: the listed values bound it; the rest excludes them
            out += [(i, s) for v, s in t[2] if s != t[3]]
            if sign < 0:
                out.append((i, t[3]))
            continue
        if t[1][1][1]:
            continue
        c = cond(t[1][1][0])
        if c is None:
            continue
        for val, s in [(v != '0', s) for v, s in t[2]] + ([(True, t[3])] if any(v == '0' for v, s in t[2]) else []):
            holds = val == c[1]
            if c[0] == 'any' or (c[0] == 'ne' and (not holds or sign < 0)) \
                    or (c[0] == 'up' and holds == (sign > 0)) or (c[0] == 'down' and holds == (sign < 0)):
                out.append((i, s))
    return out


def edge_dominates(b, e, target):
    """is target unreachable when the edge is removed?"""
    seen, todo = {0}, [0]
    while todo:
        x = todo.pop()
        if x == target:
            return False
        for s in cfg(b).succ[x]:
            if (x, s) != e and s not in seen:
                seen.add(s)
                todo.append(s)
    return True


def depthguard(p, G, comp):
    """some parameter of each function of the cycle only ever moves one way along the recursive calls; every cycle
    passes a call that moves it, and one that happens only where a comparison with a constant bounds it.
    Calls that descend an owned tree need neither."""
    comp = sorted(comp)
    cs = set(comp)
    edges = {}      # (caller, callee) -> list of (block, {callee key: (caller key, delta)})
    for s in G.sites:
        if s.body.id not in cs or not s.info:
            continue
        tgt = s.info.get('res') or s.info['id']
        if tgt not in cs:
            continue
        if s.args and s.args[0][0] in ('copy', 'move') and child(p, s.body, s.args[0][1][0], p.bodies[tgt]):
            continue
        m = {}
        for i, o in enumerate(s.args):
            if o[0] in ('copy', 'move'):
                x = linear(s.body, o[1])
                if x:
                    m[i + 1] = x
        edges.setdefault((s.body.id, tgt), []).append((s.block, m))
    called = {e for e in edges}
    for x in comp:
        b = p.bodies[x]
        for y in (G.edges.get(x, set()) | G.guarded.get(x, set())) & cs:
            if (x, y) in called or not y.startswith(x + '::{closure'):
                continue
            for i, bl in enumerate(b.blocks):
                for st in bl['s']:
                    if st[0] == '=' and st[2][0] == 'agg' and isinstance(st[2][1], list) and st[2][1][:2] == ['closure', y]:
                        m = {}
                        for k, o in enumerate(st[2][2]):
                            if o[0] in ('copy', 'move'):
                                l = linear(b, o[1])
                                if l:
                                    m[('cap', k)] = l
                        edges.setdefault((x, y), []).append((i, m))
    # any other edge inside the component (a call through a value) carries nothing
    for x in comp:
        for y in (G.edges.get(x, set()) | G.guarded.get(x, set())) & cs:
            if (x, y) not in edges and not any(1 for s in G.sites if s.body.id == x and s.info and (s.info.get('res') or s.info['id']) == y):
                edges[(x, y)] = [(0, {})]

    def acyclic(cut):
        left, ch = set(comp), True
        while ch:
            ch = False
            for x in list(left):
                if not any((x, y) in edges and (x, y) not in cut for y in left):
                    left.discard(x)
                    ch = True
        return not left
    if acyclic(set()):
        return True
    live = [x for x in comp if any(x in e for e in edges)]
    keys = {x: sorted({k for (a, y), l in edges.items() for _, m in l if y == x for k in m} |
                      {v[0] for (a, y), l in edges.items() for _, m in l if a == x for v in m.values()}, key=str) for x in live}

    def search(sig, rest, sign):
        if rest:
            for k in keys[rest[0]]:
                s2 = dict(sig)
                s2[rest[0]] = k
                ok = True
                for (a, y), l in edges.items():
                    if a in s2 and y in s2 and rest[0] in (a, y):
                        for _, m in l:
                            v = m.get(s2[y])
                            if v is None or v[0] != s2[a] or v[1] * sign < 0:
                                ok = False
                if ok and search(s2, rest[1:], sign):
                    return True
            return False
        inc, grd = set(), set()
        for (a, y), l in edges.items():
            if all(m[sig[y]][1] * sign > 0 for _, m in l):
                inc.add((a, y))
            g = guards(p.bodies[a], sig[a], sign)
            if all(any(edge_dominates(p.bodies[a], e, blk) for e in g) for blk, _ in l):
                grd.add((a, y))
        return acyclic(inc) and acyclic(grd)
    return any(search({}, live, s) for s in (1, -1))


def child(p, b, l, callee):
    """the receiver is an element of an owned tree below the caller's receiver"""
    if not b.argc or fromparam(b, l):
        return False
    t, u = deref(p, b.locals[l]), deref(p, callee.locals[1])
    me = deref(p, b.locals[1])
    if '{closure' in b.id or t[0] != 'adt' or t[:2] != u[:2]:
        return False
    if me[:2] != t[:2]:
        return False
    ds = defs(b, l)
    while len(ds) == 1 and ds[0][0] in ('use', 'ref'):
        pl = ds[0][1][1] if ds[0][0] == 'use' and ds[0][1][0] != 'const' else ds[0][2] if ds[0][0] == 'ref' else None
        if pl is None:
            return False
        if 1 <= pl[0] <= b.argc:
            return any(e[0] == 'f' for e in pl[1])
        ds = defs(b, pl[0])
    return True


def defs(b, l):
    out = []
    for bl in b.blocks:
        for st in bl['s']:
            if st[0] == '=' and st[1][0] == l and not st[1][1]:
                out.append(st[2])
        t = bl['t']
        if t[0] == 'call' and t[3][0] == l:
            out.append(['call'])
    return out


def fromparam(b, l, d=0):
    if 1 <= l <= b.argc:
        return True
    ds = defs(b, l)
    return d < 5 and len(ds) == 1 and ds[0][0] == 'use' and ds[0][1][0] in ('copy', 'move') and not ds[0][1][1][1] and fromparam(b, ds[0][1][1][0], d + 1)


def loops(p, info):
    """loops with no automatic bound: {function: [(kind, span)]}, counts.  info: classification by the value analysis"""
    out, n = {}, {'loops': 0, 'iterator_driven': 0, 'counter_bounded': 0, 'unproven': 0, 'infinite': 0, 'not_analysed': 0}
    for b in p.bodies.values():
        for h in cfg(b).loops:
            n['loops'] += 1
            v, lfp = info.get((b.qual, h)) or (None, None)
            if v == 'bounded':
                n['counter_bounded'] += 1
                continue
            if iterdriven(p, b, h):
                n['iterator_driven'] += 1
                continue
            k = v or 'not_analysed'
            n[k] += 1
            out.setdefault(owner(p, b.id), []).append((k, lfp, b.blocks[h]['sp']))
    return out, n


# ---------------------------------------------------------------- errors that vanish
PASSIVE = re.compile(r'(Result::(<T, E>::)?(ok|err|is_ok|is_err|as_ref)$|Option::(<T>::)?(is_some|is_none|as_ref)$|mem::drop$|mem::forget$)')


def is_result(p, t):
    x = p.types[t] if isinstance(t, int) else ['?']
    return x[0] == 'adt' and x[1].endswith('result::Result')


def looked_at(b, l, seen=None):
    """is what the local holds ever examined or handed on?"""
    seen = set() if seen is None else seen
    if l in seen:
        return False
    seen.add(l)
    if l == 0:
        return True
    for bl in b.blocks:
        if bl['c']:
            continue
        for st in bl['s']:
            if st[0] != '=' or l not in uses(st[2]):
                continue
            r = st[2]
            if r[0] == 'use' and r[1][0] != 'const' and r[1][1] == [l, []] and not st[1][1]:
                if looked_at(b, st[1][0], seen):
                    return True
            elif r[0] == 'ref' and r[2] == [l, []] and not st[1][1]:
                if looked_at(b, st[1][0], seen):
                    return True
            elif r[0] == 'discr':
                if looked_at(b, st[1][0], seen):
                    return True
            else:
                return True
        t = bl['t']
        if t[0] == 'switch' and l in uses(t[1]):
            ends = {skip(b, x) for x in targets(t)}
            ends = {e for e in ends if b.blocks[e]['t'][0] != 'unreachable'}
            if len(ends) > 1:
                return True
        elif t[0] == 'call' and any(l in uses(o) for o in t[2]):
            f = fninfo(t[1])
            if not f or not PASSIVE.search(f['path']):
                return True
            if looked_at(b, t[3][0], seen):
                return True
        elif t[0] == 'assert' and l in uses(t[1]):
            return True
    return False


def targets(t):
    return [x[1] for x in t[2]] + [t[3]]


def skip(b, i, d=0):
    """the block where something next happens"""
    while d < 30:
        bl = b.blocks[i]
        if any(st[0] == '=' and not (st[2][0] == 'use' and st[2][1][0] == 'const' and st[2][1][2][:1] == ['tup']) for st in bl['s']):
            return i
        t = bl['t']
        if t[0] == 'goto':
            i = t[1]
        elif t[0] == 'drop':
            i = t[2]
        else:
            return i
        d += 1
    return i


def swallowed(p, G):
    """C11: the outcome of every fallible operation of the crate, and of reading the file, is examined or handed on"""
    vs, n = [], {'fallible_call_sites': 0}
    for s in G.sites:
        if s.body.blocks[s.block]['c'] or not s.info or s.dest[1] or not is_result(p, s.body.locals[s.dest[0]]):
            continue
        if not (s.info['id'].startswith(p.crate + '::') or s.info.get('rlocal') or re.search(r'(io::Read::read|io::read::Read::read|fs::File::open)', s.path)):
            continue
        n['fallible_call_sites'] += 1
        if not looked_at(s.body, s.dest[0]):
            vs.append(V('error-ignored', owner(p, s.body.id) or s.body.qual, 'the outcome of %s is thrown away, so a failure would go unnoticed' % s.path, s.span))
    return vs, n


def unwraps(p, b, q):
    """does the body unwrap (panic on failure of) a result of q?"""
    for bl in b.blocks:
        t = bl['t']
        if t[0] == 'call':
            f = fninfo(t[1])
            tgt = f and p.bodies.get(f.get('res') or f['id'])
            if tgt is not None and tgt.qual == q:
                l = t[3][0]
                ls = {l}
                for bl2 in b.blocks:
                    for st in bl2['s']:
                        if st[0] == '=' and st[2][0] == 'use' and st[2][1][0] != 'const' and st[2][1][1][0] in ls and not st[1][1]:
                            ls.add(st[1][0])
                for bl2 in b.blocks:
                    t2 = bl2['t']
                    if t2[0] == 'call':
                        f2 = fninfo(t2[1])
                        if f2 and re.search(r'::(unwrap|expect)$', f2['path']) and any(uses(o) & ls for o in t2[2]):
                            return True
    return False
