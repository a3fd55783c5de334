"""The rules over the tree, grouped by the guarantee they support."""
from lab import Lab
from rules import gtree, gsearch, gwrite, grec
from rules.replica import where, REP
from rules.runtree import same, chk0
from rules.gtree import STRUCT, LEN, FIND
from rules.gwrite import CURSOR

BOTH = ("run", "piece")
RUN = ("run",)
RULES = [
    ("one-child", gtree.one_child, BOTH), ("two-children", gtree.two_children, RUN),
    ("child-at", gsearch.child_at, BOTH), ("child-holding", gsearch.child_holding, RUN),
    ("lengths-before", gsearch.lengths_before, BOTH), ("offset-in-parent", gsearch.offset_in_parent, BOTH),
    ("siblings", gsearch.siblings, RUN), ("find-offset", gsearch.find_offset, BOTH), ("ends", gsearch.ends, BOTH),
    ("neighbour", gsearch.neighbour, BOTH), ("iterate", gsearch.iterate, BOTH),
    ("insert-one", gwrite.insert_one, BOTH), ("leaf-with-another", gwrite.leaf_with_another, BOTH),
    ("change", gwrite.change, BOTH), ("two-changed", gwrite.two_changed, ("piece",)),
    ("leaf-insert", gwrite.leaf_insert, RUN), ("leaf-delete", gwrite.leaf_delete, RUN), ("pushed", gwrite.pushed, BOTH),
    ("new-root", gwrite.new_root, BOTH), ("patch-up", gwrite.patch_up, BOTH), ("bubble-up", gwrite.bubble_up, BOTH),
    ("first", gwrite.first, BOTH),
    ("insert-down", grec.insert_down, RUN), ("part-deleted", grec.part_deleted, RUN), ("range-deleted", grec.range_deleted, RUN),
    ("child-gone", grec.child_gone, RUN), ("by-offset", grec.by_offset, RUN), ("found-again", grec.found_again, BOTH),
]
USES = {
    STRUCT: set("one-child two-children insert-one leaf-with-another change two-changed leaf-insert leaf-delete pushed new-root bubble-up first insert-down part-deleted range-deleted child-gone by-offset iterate neighbour siblings".split()),
    LEN: set("one-child two-children insert-one leaf-with-another change two-changed leaf-insert leaf-delete new-root patch-up bubble-up first insert-down part-deleted range-deleted child-gone by-offset child-at child-holding lengths-before offset-in-parent find-offset ends".split()),
    CURSOR: set("insert-one leaf-with-another change two-changed leaf-insert leaf-delete new-root bubble-up first insert-down part-deleted range-deleted by-offset found-again".split()),
}
WALK = ("iterate", "neighbour", "siblings")


# the functions that walk or search take the tree's shape for granted
SURE = set("one-child two-children insert-one leaf-with-another change two-changed leaf-insert leaf-delete pushed new-root patch-up bubble-up first insert-down part-deleted range-deleted child-gone offset-in-parent lengths-before".split())


def excused(p, name):
    """panics that need a broken tree, a leaf that does not join, or a closure that breaks its contract"""
    x = str(p.extra)
    return x == "bounds:index" or "unwrap_failed" in x and "result::" in x or "unreachable" in x and name == "leaf-insert"


def sound(c, tag, name, labs):
    """no path ends in a panic"""
    n = 0
    for L in labs:
        for p in L.e.panics:
            if excused(p, name):
                continue
            n += 1
            chk0(c, tag, L, p.g, f"{name} does not panic", f"{name}: panics ({p.extra} at {p.span})", str(p.span).split(":")[0])
    return n


def nopanics(fn, tag, name, but):
    """a rule without a tag, with its own panics looked at"""
    def run(c):
        last = []

        def born(L):
            if last:
                look(last.pop())
            last.append(L)

        def look(L):
            for p in L.e.panics:
                if not any(x in str(p.extra) for x in but):
                    chk0(c, tag, L, p.g, f"{name} does not panic", f"{name}: panics ({p.extra} at {p.span})", str(p.span).split(":")[0])
        Lab.born = born
        try:
            fn(c)
            if last:
                look(last.pop())
        finally:
            Lab.born = None
    run.__name__, run.__module__ = fn.__name__, fn.__module__
    return run


def only(fn, leaf, tags, name="", sure=False):
    def run(c):
        check = c.check

        def filtered(ok, rule, inst, msg, where=None):
            if rule in tags:
                return check(ok, rule, f"{inst} [{leaf}s]", msg, where)
            return ok
        c.check = filtered
        tag = sorted(tags)[0]
        last = []

        def born(L):
            if last:
                sound(c, tag, name, [last.pop()])
            last.append(L)
        if sure:
            Lab.born = born
        try:
            fn(c, leaf)
            if last:
                sound(c, tag, name, [last.pop()])
        finally:
            Lab.born = None
            del c.check
    run.__name__, run.__module__ = fn.__name__, fn.__module__
    return run


def group(tag):
    out = []
    for name, fn, leaves in RULES:
        if name not in USES[tag]:
            continue
        tags = {tag}
        if tag == LEN or tag == STRUCT and name in WALK:
            tags.add(FIND)
        for leaf in leaves:
            out.append((f"{name} ({leaf}s)", only(fn, leaf, tags, name, name in SURE)))
    return out


PLACE = (STRUCT, FIND, CURSOR)


def part(names, tags=(STRUCT, LEN, FIND, CURSOR), leaf="run"):
    """some of the rules, for a guarantee that leans on them"""
    names = names.split()
    assert set(names) <= {n for n, _, _ in RULES}
    return [(f"{n} ({leaf}s)", only(fn, leaf, set(tags), n, n in SURE)) for n, fn, leaves in RULES if n in names and leaf in leaves]


def counts(c):
    """What a run counts for, and what the replica says it holds."""
    R = LEN
    L = Lab(c.prog("rel"), opaque=[r"cola::backlog::.*"])
    e = L.e
    for ty, want in (("run_tree::EditRun", "run"), ("run_indices::Fragment", "piece")):
        fn = f"<cola::{ty} as cola::gtree::Leaf>::len"
        w = where(L, fn)
        x = L.place(want, L.ty(ty))
        v = L.get(x)
        got = L.pure(fn, L.ref(x))
        if want == "run":
            tx, tt = L.f(v, L.ty(ty), "text"), L.fty(L.ty(ty), "text")
            rg, rt = L.f(tx, tt, "range"), L.fty(tt, "range")
            a, b = L.f(rg, rt, "start"), L.f(rg, rt, "end")
            gone = L.G(L.f(v, L.ty(ty), "is_deleted"))
            L.assume(L.NOT(e.lt(b, a)))
            same(c, R, L, got, e.I(0), gone, "a deleted run counts for nothing", "deleted text is counted in the document's length", w)
            same(c, R, L, got, e.sub(b, a), L.NOT(gone), "a visible run counts its characters", "a visible run does not count for its characters", w)
        else:
            same(c, R, L, got, L.f(v, L.ty(ty), "len"), 1, "a piece counts its characters", "a piece of a run does not count for its length", w)
    L = Lab(c.prog("rel"))
    e = L.e
    rep = L.place("replica", L.ty(REP))
    w = where(L, "cola::replica::Replica::len")
    got = L.pure("cola::replica::Replica::len", L.ref(rep))
    g = L.f(L.get(rep), L.ty(REP), "run_tree.gtree")
    GT = L.fty(L.fty(L.ty(REP), "run_tree"), "gtree")
    ino = L.f(g, GT, "inodes")
    it = L.fty(GT, "inodes")
    root = e.geti(ino, it, e.getf(L.f(g, GT, "root_idx"), L.fty(GT, "root_idx"), 0, 0))
    same(c, R, L, got, L.f(root, e.elty(it), "tot_len"), 1, "the replica's length is its tree's", "the replica's length is not the length of its tree", w)


def joins(c):
    """Two neighbouring runs become one only when that changes nothing: same
    author, run, time and visibility, and no gap between them."""
    R = STRUCT
    for ty, what in (("run_tree::EditRun", "run"), ("run_indices::Fragment", "piece")):
        for fn in ("append", "prepend"):
            L = Lab(c.prog("rel"))
            e = L.e
            name = f"<cola::{ty} as cola::gtree::Join>::{fn}"
            l = L.prog.find(name) or [i for i in L.prog.insts if i["def"] == f"cola::gtree::Join::{fn}" and i.get("body") and L.prog.types[i["body"]["locals"][2]].get("name", "").endswith(ty)]
            l = [i for i in l if i["body"]["locals"][2] == L.ty(ty)]
            if not l:
                continue
            inst, T = l[0], L.ty(ty)
            c.analysed.add(inst["def"])
            w = inst["def"] + " @ " + str(inst["body"]["span"])
            me = L.place("me", T)
            other = L.sym("other", T)
            old = L.get(me)
            sg = lambda v: L.f(v, T, "text.range")
            if what == "run":
                RT = L.fty(L.fty(T, "text"), "range")
                for v in (old, other):
                    L.assume(e.lt(L.f(sg(v), RT, "start"), L.f(sg(v), RT, "end")))
            rv, out, rty = L.call(inst, L.ref(me), other)
            new = L.get(me, out)
            err = "Err"
            no = L.AND(out.g, L.isv(rv, rty, err))
            yes = L.AND(out.g, L.NOT(L.isv(rv, rty, err)))
            chk0(c, R, L, L.NOT(out.g), f"{what} {fn} returns", f"joining two {what}s panics", w)
            same(c, R, L, L.payload(rv, rty, err), other, no, f"{what} {fn}: refused", f"a {what} that is refused is not handed back as it was", w)
            same(c, R, L, new, old, no, f"{what} {fn}: unchanged when refusing", f"a {what} that refuses another one changes", w)
            if what == "piece":
                chk0(c, R, L, yes, f"{what} {fn}: never joined", "two pieces are joined", w)
                continue
            for f in ("text.inserted_by", "run_ts", "lamport_ts", "is_deleted"):
                same(c, R, L, L.f(old, T, f), L.f(other, T, f), yes, f"{what} {fn}: same {f}", f"two runs with different {f} become one", w)
                same(c, R, L, L.f(new, T, f), L.f(old, T, f), yes, f"{what} {fn}: keeps {f}", f"joining two runs changes {f}", w)
            a, b = (old, other) if fn == "append" else (other, old)
            s, t = (lambda v: L.f(sg(v), RT, "start")), (lambda v: L.f(sg(v), RT, "end"))
            same(c, R, L, t(a), s(b), yes, f"{what} {fn}: no gap", "two runs become one although they do not follow each other", w)
            same(c, R, L, s(new), s(a), yes, f"{what} {fn}: start", "the joined run does not start where the first one does", w)
            same(c, R, L, t(new), t(b), yes, f"{what} {fn}: end", "the joined run does not end where the second one does", w)
    c.floor("ways to join runs", sum(1 for o in c.obs if o[1].endswith("refused")), 2)
