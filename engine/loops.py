"""Inductive summaries of loops that walk a symbolic-length string.

At a loop head the analysis compares the state before and after one trip, generalises every
slot that moves by a constant to v0 + d*I and every string that grows to prefix + image(0..I),
and then checks that one arbitrary trip from the general state leads back to it (with I+1).
Only if that induction step is verified is the general state used; otherwise the loop is unrolled
and the run ends undecided when the limit is reached.
"""
import time
from . import dom
from .dom import add, sub, scale, ge, eq, Poly, Infeasible
from .interp import (Interp, PathEnd, Unsupported, UndefUse, Ptr, StrRec, UNDEF, Split, State)


class Havoc:
    def __repr__(self):
        return 'havoc'


HAVOC = Havoc()


class LoopBack(Exception):
    def __init__(self, s):
        self.s = s


class LoopExit(Exception):
    pass


def body_blocks(fn, head):
    """natural loop of head: blocks that reach head without leaving through it"""
    cache = fn.__dict__.setdefault('_loops', {}) if hasattr(fn, '__dict__') else _CACHE.setdefault(fn.name, {})
    if head in cache:
        return cache[head]
    from .ir import _succs
    succ = {b: _succs(fn.blocks[b][-1]) for b in fn.order}
    pred = {}
    for b, ss in succ.items():
        for x in ss:
            pred.setdefault(x, []).append(b)
    # reachable from head
    reach = set()
    st = [head]
    while st:
        b = st.pop()
        if b in reach:
            continue
        reach.add(b)
        st += succ.get(b, [])
    body = {head}
    st = [b for b in pred.get(head, []) if b in reach]
    while st:
        b = st.pop()
        if b in body or b not in reach:
            continue
        body.add(b)
        st += pred.get(b, [])
    cache[head] = body
    return body


_CACHE = {}


def probe(I, s, depth, target, cap=600):
    s.loops = dict(s.loops)
    s.loops['probe'] = (depth, target, body_blocks(s.frames[-1].fn, target))
    work = [s]
    backs = []
    old = I.muted
    I.muted = True
    n = 0
    try:
        while work:
            x = work.pop()
            n += 1
            if n > cap:
                return None
            try:
                I.run(x, work)
            except LoopBack as e:
                backs.append(e.s)
            except (LoopExit, PathEnd, Infeasible):
                pass
            except (Unsupported, UndefUse):
                return None
    finally:
        I.muted = old
    for b in backs:
        b.loops = dict(b.loops)
        b.loops.pop('probe', None)
    return backs


def phis(f):
    out = []
    for i in f.insts:
        if i.op != 'phi':
            break
        out.append(i.res)
    return out


def veq(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and a.off == b.off
    return type(a) == type(b) and a == b


def slots_of(s, f):
    """slot -> value, for phis and memory cells"""
    out = {}
    for p in phis(f):
        out[('r', p)] = f.env.get(p, UNDEF)
    return out


def segs(I, s, rec):
    return I.models.segs_of(I, s, rec)


def loop_head(I, s, f, target):
    depth = len(s.frames)
    pr = s.loops.get('probe')
    if pr is not None:
        if pr[0] == depth and pr[1] == target:
            raise LoopBack(s)
        return
    k = ('G', target)
    st = f.visits.get(k)
    if st == 'no':
        return
    if st == 'yes':
        raise PathEnd('absorbed')
    lazies = {}
    for o in s.mem.values():
        if o.lazy is not None and o.alive and not isinstance(s.st.simp(o.lazy[1]), int):
            lazies[o.lazy[0]] = o.lazy[1]
    if not lazies:
        return
    f.visits[k] = 'no'
    backs = probe(I, s.copy(), depth, target)
    if not backs:
        return
    strbufs = set()
    for o in s.mem.values():
        for c in o.cells.values():
            if isinstance(c[1], StrRec):
                strbufs.add(c[1].buf)
    kinds = {}

    def classify(get0, get1):
        v0 = get0
        vs = get1
        if all(veq(v0, v) for v in vs):
            return None
        if isinstance(v0, StrRec) and all(isinstance(v, StrRec) for v in vs):
            return ('str',)
        if isinstance(v0, (int, Poly)) and all(isinstance(v, (int, Poly)) for v in vs):
            ds = {sub(v, v0) if isinstance(sub(v, v0), int) else 'x' for v in vs}
            if len(ds) == 1 and 'x' not in ds:
                return ('lin', ds.pop())
            return ('havoc',)
        if isinstance(v0, Ptr) and all(isinstance(v, Ptr) and v.obj == v0.obj for v in vs):
            ds = {sub(v.off, v0.off) if isinstance(sub(v.off, v0.off), int) else 'x' for v in vs}
            if len(ds) == 1 and 'x' not in ds:
                return ('ptr', ds.pop())
            return ('havoc',)
        return ('havoc',)
    for p in phis(f):
        c = classify(f.env.get(p, UNDEF), [b.frames[-1].env.get(p, UNDEF) for b in backs])
        if c:
            kinds[('r', p)] = c
    for oid, o in s.mem.items():
        if oid in strbufs or o.lazy is not None:
            continue
        keys = set(o.cells)
        for b in backs:
            if b.mem[oid] is not o:
                keys |= set(b.mem[oid].cells)
        for off in keys:
            c0 = o.cells.get(off)
            cs = [b.mem[oid].cells.get(off) for b in backs]
            if all(c is c0 or (c is not None and c0 is not None and c[0] == c0[0] and veq(c[1], c0[1])) for c in cs):
                continue
            if c0 is None or any(c is None or c[0] != c0[0] for c in cs):
                n = max([c[0] for c in cs if c is not None] + ([c0[0]] if c0 else []))
                kinds[('m', oid, off, n)] = ('havoc',)
                continue
            c = classify(c0[1], [c[1] for c in cs])
            if c and c[0] == 'str':
                # the string itself may be unchanged
                pre = segs(I, s, c0[1])
                if all(segs(I, b, x[1]) == pre for b, x in zip(backs, cs)):
                    continue
            if c:
                kinds[('m', oid, off, c0[0])] = c
    if not any(v[0] in ('lin', 'ptr') for v in kinds.values()):
        return
    I.nloop = getattr(I, 'nloop', 0) + 1
    cand = set(lazies)
    for attempt in range(6):
        G, isym, imgs = generalise(I, s, kinds, lazies, cand, attempt)
        if G is None:
            return
        bk = probe(I, G.copy(), depth, target)
        if bk is None:
            return
        bad = verify(I, s, G, bk, kinds, isym, imgs, lazies, cand)
        if bad is None:
            # commit
            for iid, (slot, pre) in imgs.items():
                pass
            s.st, s.mem, s.frames, s.nextobj = G.st, G.mem, G.frames, G.nextobj
            s.token = G.token
            s.ghost = dict(G.ghost)
            s.ghost['approx'] = True
            s.ghost['loops'] = s.ghost.get('loops', ()) + (isym,)
            s.frames[-1].visits[k] = 'yes'
            I.summaries.append((f.fn.dem, target, len(bk)))
            return
        for b in bad:
            if b[0] == 'cand':
                cand.discard(b[1])
            else:
                kinds[b[1]] = ('havoc',)


def generalise(I, s, kinds, lazies, cand, attempt):
    G = s.copy()
    f = G.frames[-1]
    name = 'I%d_%d' % (I.nloop, attempt)
    isym = dom.sym(name, 0, 1 << 60)
    imgs = {}
    for slot, kd in kinds.items():
        if slot[0] == 'r':
            v0 = f.env.get(slot[1], UNDEF)
        else:
            c = G.mem[slot[1]].cells.get(slot[2])
            v0 = c[1] if c is not None else UNDEF
        if kd[0] == 'lin':
            v = add(v0, scale(isym, kd[1]))
        elif kd[0] == 'ptr':
            v = Ptr(v0.obj, add(v0.off, scale(isym, kd[1])), v0.zlo, v0.zhi)
        elif kd[0] == 'str':
            pre = segs(I, G, v0)
            iid = len(I.images)
            I.images.append(None)
            rec = I.models.newsegs(I, G, pre + [('img', iid, isym)])
            imgs[iid] = (slot, pre)
            v = rec
        else:
            v = HAVOC
        if slot[0] == 'r':
            f.env[slot[1]] = v
        else:
            o = G.w(slot[1])
            if v is HAVOC:
                for x in [x for x in o.cells if x < slot[2] + slot[3] and x + o.cells[x][0] > slot[2]]:
                    del o.cells[x]
                o.cells[slot[2]] = (slot[3], HAVOC)
            else:
                o.cells[slot[2]] = (slot[3], v)
    try:
        for n in cand:
            G.st.assume(ge(sub(lazies[n], isym)), record=False)
    except Infeasible:
        return None, None, None
    return G, isym, imgs


def verify(I, s, G, bk, kinds, isym, imgs, lazies, cand):
    """None if one general trip leads back to the general state; else the slots/facts to give up"""
    bad = []
    parts = {iid: [] for iid in imgs}
    byslot = {slot: iid for iid, (slot, pre) in imgs.items()}
    strbufs = set()
    for o in G.mem.values():
        for c in o.cells.values():
            if isinstance(c[1], StrRec):
                strbufs.add(c[1].buf)
    for b in bk:
        for n in cand:
            if b.st.decide(ge(sub(lazies[n], add(isym, 1)))) is not True:
                bad.append(('cand', n))
        f0, f1 = G.frames[-1], b.frames[-1]
        for p in phis(f0):
            slot = ('r', p)
            kd = kinds.get(slot)
            x, y = f0.env.get(p, UNDEF), f1.env.get(p, UNDEF)
            if not slot_ok(b, kd, x, y):
                bad.append(('slot', slot))
        for oid, o in G.mem.items():
            if oid in strbufs or o.lazy is not None:
                continue
            o1 = b.mem[oid]
            if o1 is o:
                continue
            for off in set(o.cells) | set(o1.cells):
                c0, c1 = o.cells.get(off), o1.cells.get(off)
                if c0 is c1:
                    continue
                n = max(c[0] for c in (c0, c1) if c is not None)
                slot = ('m', oid, off, n)
                kd = kinds.get(slot)
                if kd == ('havoc',):
                    continue
                if c0 is None or c1 is None or c0[0] != c1[0]:
                    if any(k[0] == 'm' and k[1] == oid and k[2] <= off < k[2] + k[3] and v == ('havoc',) for k, v in kinds.items()):
                        continue
                    bad.append(('slot', slot))
                    continue
                if isinstance(c0[1], StrRec) and isinstance(c1[1], StrRec):
                    g0, g1 = segs(I, G, c0[1]), segs(I, b, c1[1])
                    if kd == ('str',):
                        if g1[:len(g0)] != g0 or any(x[0] != 'b' for x in g1[len(g0):]):
                            bad.append(('slot', slot))
                        else:
                            parts[byslot[slot]].append((b, [x[1] for x in g1[len(g0):]]))
                    elif g0 != g1:
                        bad.append(('slot', slot))
                    continue
                if not slot_ok(b, kd, c0[1], c1[1]):
                    bad.append(('slot', slot))
    if bad:
        return bad
    for iid in imgs:
        I.images[iid] = dict(isym=isym, parts=parts[iid], base=len(G.st.conds))
    return None


def slot_ok(b, kd, x, y):
    if kd is None:
        return veq(x, y)
    if kd[0] == 'havoc':
        return True
    if kd[0] == 'lin':
        return isinstance(y, (int, Poly)) and b.st.simp(sub(y, add(x, kd[1]))) == 0
    if kd[0] == 'ptr':
        return isinstance(y, Ptr) and y.obj == x.obj and b.st.simp(sub(y.off, add(x.off, kd[1]))) == 0
    return False


Interp.loop_head = loop_head


def eval_image(I, img, content, name, count, env0, end=None):
    """bytes the loop appends for a concrete content; None if no recorded trip applies"""
    out = []
    a = next(iter(img['isym'].t))[0]
    for j in range(count):
        if end is not None and j % 256 == 0 and time.time() > end:
            return None
        env = dict(env0)
        env[a] = j
        memo = {}
        hit = False
        for b, app in img['parts']:
            try:
                if all(dom.ev_cond(c, env, memo) for c in b.st.conds[img['base']:]):
                    out += [dom.ev(x, env, memo) & 255 for x in app]
                    hit = True
                    break
            except KeyError:
                return None
        if not hit:
            return None
    return out
