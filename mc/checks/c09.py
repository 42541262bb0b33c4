"""C09: writing leaves its input alone and is a function of (caption set, writer, options)."""
import hashlib
import itertools
import os

from mc import iso, pool
from mc.core import Mismatch, Space, devs, prod

ASSUMPTIONS = [
    "unchanged = equal complete dumps (type and all attributes, recursively) of the caption set before and after the call",
    "a writer that raises has to raise the same exception (type and message) each time; what it must not do is alter the set or later output",
]
US = 1000000
# writer configurations: (name, constructor options, write arguments)
CONF = [("srt", {}, {}), ("mdvd", {}, {}), ("scc", {}, {}), ("legacy", {}, {}), ("legacy", {}, {"force": "fr"}),
        ("vtt", {}, {}), ("vtt", {"video_width": 640, "video_height": 360}, {}), ("vtt", {}, {"lang": "en"}), ("vtt", {"relativize": False, "fit_to_screen": False}, {}),
        ("dfxp", {}, {}), ("dfxp", {"video_width": 640, "video_height": 360}, {}), ("dfxp", {"write_inline_positioning": True}, {}),
        ("dfxp", {"relativize": False, "fit_to_screen": False}, {"force": "fr"}), ("dfxp", {"fit_to_screen": False}, {"force": "en"}), ("dfxp", {"relativize": False}, {}),
        ("single", {}, {}), ("single", {"default_positioning": 5, "video_width": 640, "video_height": 360}, {}), ("single", {"default_positioning": 3}, {"force": "en"}),
        ("sami", {}, {}), ("sami", {"video_width": 640, "video_height": 360}, {}), ("sami", {"relativize": False, "fit_to_screen": False}, {})]


def writer(ci):
    from mc import build as B
    name, opts, _ = CONF[ci]
    opts = dict(opts)
    if "default_positioning" in opts:
        opts["default_positioning"] = pool.L(opts["default_positioning"])
    return B.WRITERS[name](**opts)


def write(wr, ci, cs):
    try:
        return wr.write(cs, **CONF[ci][2])
    except Exception as e:
        return "RAISED %s: %s" % (type(e).__name__, e)


def reference(ci, si):
    return write(writer(ci), ci, pool.SETS[si]())


def all_refs(family, conf):
    """{case: output} for a whole family; run in a pristine process"""
    out = {}
    for key, make in family_sets(family):
        for ci in conf:
            out[key, ci] = write(writer(ci), ci, make())
    return out


# ------------------------------------------------------------------ histories over the pool
def play(ops):
    """ops: [(writer slot, conf, set index)]: slots keep their writer object, sets keep their object as well; returns the outputs"""
    slots, sets, snaps = {}, {}, {}
    outs = []
    for slot, ci, si in ops:
        if si not in sets:
            sets[si] = pool.SETS[si]()
            snaps[si] = iso.dump(sets[si])
        wr = slots.setdefault((slot, ci), None) or writer(ci)
        slots[slot, ci] = wr
        out = write(wr, ci, sets[si])
        changed = None
        for k, cs in sets.items():
            now = iso.dump(cs)
            if now != snaps[k]:
                changed = (pool.NAMES[k], iso.diff(snaps[k], now))
                break
        outs.append((out, changed))
        if changed:
            break
    return outs


_REF = {}


def prepare():
    """the reference outputs: each written in a process of its own, which has done nothing before"""
    keys = [(c, s) for c in range(len(CONF)) for s in range(len(pool.SETS))]
    for k, (st, out) in zip(keys, iso.isolated_map(reference, keys)):
        if st != "ok":
            raise RuntimeError(out)
        _REF[k] = out


def ref(ci, si):
    if (ci, si) not in _REF:
        st, out = iso.isolated(reference, ci, si)
        if st != "ok":
            raise RuntimeError(out)
        _REF[ci, si] = out
    return _REF[ci, si]


def show(ops):
    return [(slot, CONF[ci], pool.NAMES[si]) for slot, ci, si in ops]


def play_all(histories):
    """the histories one after another in one process; stops at the first that changed a set"""
    out = []
    for ops in histories:
        out.append(play(ops))
        if any(c for _, c in out[-1]):
            break
    return out


def check_histories(histories, ctx):
    st, results = iso.isolated(play_all, histories)
    if st != "ok":
        raise Mismatch("history died: %s" % results, [show(ops) for ops in histories[:3]])
    for n, (ops, outs) in enumerate(zip(histories, results)):
        ctx.executions += len(outs)
        for k, (out, changed) in enumerate(outs):
            before = "after %d other histories in the same process" % n if n else "in a fresh process"
            if changed:
                raise Mismatch("set %r was changed by write %d" % (changed[0], k + 1), (show(ops[:k + 1]), before), "unchanged", changed[1])
            want = ref(ops[k][1], ops[k][2])
            if out != want:
                raise Mismatch("write %d of the history differs from an isolated write" % (k + 1), (show(ops[:k + 1]), before), want, out)
            ctx.outcome((ops[k][1], ops[k][2], out))
        ctx.step(len(ops))
        ctx.state(tuple(ops))


def run_same_writer(desc, ctx):
    """one writer object, a sequence of sets"""
    ci, sets = desc
    check_histories([[(0, ci, s) for s in sets + (t,)] for t in range(len(pool.SETS))], ctx)


def run_pairs(desc, ctx):
    """two writer objects of any two configurations, all ordered pairs of sets, shared caption set objects"""
    ca, cb, sa = desc
    check_histories([[(0, ca, sa), (1, cb, sb), (0, ca, sa)] + ([(2, cb, sa)] if sb == sa else []) for sb in range(len(pool.SETS))], ctx)


def run_all_writers(desc, ctx):
    """every configuration writes the same set object, in a rotated order, twice"""
    si, rot = desc
    n = len(CONF)
    order = [(c + rot) % n for c in range(n)]
    check_histories([[(c, c, si) for c in order] + [(c, c, si) for c in reversed(order)]], ctx)


def play_long(ci, n, rot, fresh):
    """one writer object writes n sets (every one unlike the others in text, time, style and layout), and a set of the pool after every fourth"""
    from mc import build as B
    wr = writer(ci)
    pools = [f() for f in pool.SETS]
    snaps = [iso.dump(x) for x in pools]
    S = B.Size.from_string
    out = []
    for k in range(n):
        L = B.Layout(origin=B.Point(S("%d%%" % (k % 80)), S("%d%%" % (k % 70))), extent=B.Stretch(S("%d%%" % (1 + k % 10)), S("5%")) if k % 2 else None)
        st = {"class": "s%d" % k, "italics": bool(k % 3)}
        cs = B.cset({"l%d" % (k % 5): [B.cap((k + 1) * US, (k + 2) * US, ["t%d" % k, None, (True, st), "u", (False, st)], layout=L, style={"class": "s%d" % k})]},
                    styles={"s%d" % k: {"color": "c%d" % k}})
        write(wr, ci, cs)
        if k % 4 == 0:
            si = (k // 4 + rot) % len(pools)
            x = pool.SETS[si]() if fresh else pools[si]
            o = write(wr, ci, x)
            now = iso.dump(x)
            out.append((k, si, o, None if now == snaps[si] else iso.diff(snaps[si], now)))
    return out


def run_long(desc, ctx):
    ci, n, rot, fresh = desc
    inp = dict(writer=CONF[ci], sets=n, rotation=rot)
    st, res = iso.isolated(play_long, ci, n, rot, fresh)
    if st != "ok":
        raise Mismatch("history died: %s" % (res,), inp)
    ctx.state(desc)
    ctx.executions += n
    for k, si, got, changed in res:
        ctx.step()
        if changed:
            raise Mismatch("set %r was changed by a write after %d others" % (pool.NAMES[si], k), inp, "unchanged", changed)
        if got != ref(ci, si):
            raise Mismatch("a write of %r after %d others differs from an isolated write" % (pool.NAMES[si], k), inp, ref(ci, si), got)
        ctx.outcome((ci, si, got))


# ------------------------------------------------------------------ a large family of sets: unchanged, repeatable
ITEMS = [["t"], ["a", None, "b"], ["x", (True, pool.I), "y", (False, pool.I)], [(True, {"class": "k", "text-align": "left"}), "y"], ["z", (False, pool.I)],
         [(True, {"bold": True}), "n", (True, pool.I), "m", (False, pool.I), (False, {"bold": True})]]
STY = [None, {"class": "k"}, {"color": "red", "text-align": "right"}, {"class": "k", "classes": ["k", "j"], "italics": True}]
SETSTY = [{}, {"k": {"color": "red"}, "j": {"italics": True, "class": "k"}}, {"p": {"text-align": "center"}, "k": {"lang": "en"}}, {"k": {}}]


def family_set(v):
    from mc import build as B
    it, it2, st, ss, cl, nl, ll, sl, ml, tm = v
    t = [(1, 2), (1, 2)][0], [(3, 4), (1, 2), (2, 2), (0.5, 1.5)][tm]
    caps = [B.cap(t[0][0] * US, t[0][1] * US, ITEMS[it], style=STY[st], layout=pool.L(cl), node_layout=pool.L(nl)),
            B.cap(t[1][0] * US, t[1][1] * US, ITEMS[it2], layout=pool.L(nl))]
    d = {"en": caps}
    ls = {"en": pool.L(ll)}
    if ml:
        d["fr"] = [B.cap(US, 3 * US, ["f"], layout=pool.L(cl))] if ml == 1 else []
        ls["fr"] = pool.L(nl)
    return B.cset(d, styles=SETSTY[ss], layout=pool.L(sl), list_layouts=ls)


FAM = [len(ITEMS), len(ITEMS), len(STY), len(SETSTY), pool.NL, pool.NL, pool.NL, pool.NL, 3, 4]


def family_sets(k):
    for i, f in enumerate(pool.SETS):
        yield pool.NAMES[i], f
    for v in devs(FAM, k):
        yield v, (lambda v=v: family_set(v))


def run_family(desc, ctx):
    """write twice with one writer, once with a fresh one (and a second set built the same way)"""
    v, part = desc
    cs, other = family_set(v), family_set(v)
    snap = iso.dump(cs)
    for ci in range(len(CONF)):
        if ci % 3 != part:
            continue
        wr = writer(ci)
        outs = []
        for w, s in ((wr, cs), (wr, cs), (writer(ci), cs), (writer(ci), other)):
            outs.append(write(w, ci, s))
            ctx.executions += 1
            now = iso.dump(cs)
            if now != snap:
                raise Mismatch("the caption set was changed by writing", (CONF[ci], v), "unchanged", iso.diff(snap, now))
        if len(set(outs)) != 1:
            raise Mismatch("writes of one set differ (same writer, same writer, fresh writer, equal set)", (CONF[ci], v), outs[0],
                           [o for o in outs if o != outs[0]][0])
        ctx.step(4)
        ctx.state((ci, v))
        ctx.outcome((ci, outs[0]))


# ------------------------------------------------------------------ hash seeds
def digests(k, conf):
    return {key: hashlib.sha256(v.encode("utf-8", "surrogatepass")).hexdigest() for key, v in all_refs(k, conf).items()}


def outputs(k, keys):
    want = set(keys)
    return {(key, ci): write(writer(ci), ci, make()) for key, make in family_sets(k) for ci in range(len(CONF)) if (key, ci) in want}


_BASE = {}


def run_hashseed(desc, ctx):
    seed, k, part = desc
    conf = [c for c in range(len(CONF)) if c % 3 == part]
    if (k, part) not in _BASE:
        _BASE[k, part] = iso.interpreter("mc.checks.c09", "digests", (k, conf), 0)
    base = _BASE[k, part]
    got = iso.interpreter("mc.checks.c09", "digests", (k, conf), seed)
    ctx.executions += len(got)
    ctx.step(len(got))
    ctx.state((seed, part))
    bad = [x for x in base if got.get(x) != base[x]]
    if bad or len(got) != len(base):
        key, ci = bad[0]
        a = iso.interpreter("mc.checks.c09", "outputs", (k, [bad[0]]), 0)
        b = iso.interpreter("mc.checks.c09", "outputs", (k, [bad[0]]), seed)
        raise Mismatch("output depends on the hash seed (%d against 0), %d cases" % (seed, len(bad)), (CONF[ci], key), list(a.values())[0], list(b.values())[0])


def spaces(tier):
    q = tier == "quick"
    ns, nc = len(pool.SETS), len(CONF)
    if not _REF:
        prepare()

    def same_writer():
        for ci in range(nc):
            for s in prod(ns):
                yield ci, s
            for s in prod(ns, ns):
                if not q or (s[0] * 21 + s[1]) % 32 == ci % 32:
                    yield ci, s

    return [
        Space("same-writer", "21 configurations of 8 writers x all sequences of length %s of %d caption sets on one writer object" % ("2 (and 1 in 32 of those of length 3)" if q else "2..3", ns),
              same_writer, run_same_writer),
        Space("two-writers", "histories (A,s) (B,t) (A,s) over %s of configurations x all pairs of sets, shared set objects" % ("1 in 7 of the pairs" if q else "all pairs"),
              lambda: ((a, b, s) for a in range(nc) for b in range(nc) if not q or (a + b) % 7 == 0 for s in range(ns) if not q or (s + a) % 3 == 0), run_pairs),
        Space("all-writers", "every configuration on one set object, forwards and backwards, in every rotation",
              lambda: prod(ns, nc), run_all_writers),
        Space("long-histories", "%s different sets written with one writer, a set of the pool after every fourth (3 rotations, shared or fresh sets) x %d configurations" % (300 if q else "300 and 1500", nc),
              lambda: ((c, n, r, f) for c in range(nc) for n in ((300,) if q else (300, 1500)) for r in range(0, 21, 7) for f in (0, 1)), run_long),
        Space("family", "caption sets with <= %d deviations over 10 dimensions x all configurations: unchanged and repeatable" % (1 if q else 2),
              lambda: ((v, p) for v in devs(FAM, 2 if q else 3) for p in range(3) if not q or (sum(v) + p) % 3 == 0), run_family),
        Space("hash-seeds", "fresh interpreters with hash seeds 0..%d x pool and family (<= 1 deviation) x all configurations" % (4 if q else 63),
              lambda: ((s, 1 if q else 2, p) for p in range(3) for s in range(1, 5 if q else 64)), run_hashseed),
    ]
