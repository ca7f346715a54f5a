"""Node trees stay trees through any history of edits: accepted, rejected, failing half way, or made while traversals are under way."""
import hashlib
import json
import os

from sim import session, site
from sim.prng import Rng
from sim.site import viol

LEVEL = "exploration"
RUNS = {"quick": 8000, "thorough": 120000}
RULE = "a run counts when an edit was rejected or failed half way, or was made while a traversal was suspended; distinct by event history"
REQUIRED_PROBES = ["rejected_edit", "edit_during_traversal", "traversal_finished", "two_traversals", "move_to_front", "replaced_by_many", "wrapped_in_traversal",
                   "added_below_the_visited", "removed_below_the_visited", "asked_below_itself"]
REQUIRED_FAULTS = ["iterator_failed"]
SHRINK_FIELDS = ["ops", "pool"]
RUN_LIMIT = 20
HANG_IS_VIOLATION = True
COMPONENTS = {"real": ["rsm.nodes: every node class and tree operation"], "simulated": ["which party acts next: editors and suspended traversals", "iterables that fail part way"], "stubbed": ["none"]}
ASSUMPTIONS = ["edits that take several nodes may stop half way when one is refused; only the invariants are required of them then"]
STATE_MEASURE = "distinct event histories"
CLASSES = ["Manuscript", "Section", "Section", "Subsection", "Subsubsection", "Paragraph", "Paragraph", "Span", "Span", "Text", "Text", "Itemize", "Enumerate", "Item", "Theorem", "Proof", "Step", "Subproof",
           "Figure", "Caption", "Table", "TableBody", "TableRow", "TableDatum", "Math", "MathBlock", "Note", "Construct", "Reference", "Abstract", "Author", "Algorithm", "Contents"]


def warm():
    session.warm()
    import rsm.nodes  # noqa: F401


def gen(seed, index, tier):
    r = Rng("P10", seed, index)
    n = r.randint(4, 16)
    focus = r.pick([CLASSES, CLASSES, ["Paragraph", "Span", "Text", "Section", "Item", "Itemize"], ["Span", "Text"]])
    pool = [r.pick(focus) for _ in range(n)]
    ops = []
    for _ in range(r.randint(5, 40)):
        k = r.randrange(20)
        a, b = r.randrange(n), r.randrange(n)
        many = [r.randrange(n) for _ in range(r.randint(0, 4))]
        if k < 6:
            ops.append(["append", a, b])
        elif k == 6:
            ops.append(["append_many", a, many, r.pick(["list", "tuple", "gen", "fail"]), r.randrange(4)])
        elif k == 7:
            ops.append(["prepend", a, b])
        elif k == 8:
            ops.append(["prepend_many", a, many])
        elif k == 9:
            ops.append(["remove", a, b])
        elif k == 10:
            ops.append(["remove_self", a])
        elif k in (11, 12):
            ops.append(["replace", a, [b] if r.chance(0.5) else many, r.chance(0.5)])
        elif k == 13:
            ops.append(["clear", a])
        elif k == 14:
            ops.append(["parent", a, b])
        elif k in (15, 16):
            ops.append(["start", a, r.pick([None, None, "Text", "Span", "Section", "Paragraph", "Node"])])
        elif k in (17, 18):
            ops.append(["next", r.randrange(4), r.randint(1, 4)])
        else:
            ops.append(["wrap", r.randrange(4), a])
        if ops[-1][0] == "next" and r.chance(0.4):
            ops.append([r.pick(["append_here", "append_here", "clear_here", "remove_here"]), b])
    return {"prop": "P10", "pool": pool, "ops": ops}


class Boom(Exception):
    pass


class Trav:
    """A suspended traversal, and what it owes."""

    def __init__(self, m, root, cls):
        self.root = root
        self.gen = m.nodes[root].traverse(nodeclass=getattr(m.N, cls)) if cls else m.nodes[root].traverse()
        self.cls = cls
        self.owed = [i for i in m.preorder(root) if cls is None or isinstance(m.nodes[i], getattr(m.N, cls))]
        self.touched = set()
        self.seen = []
        self.live = True
        self.known = set(m.preorder(root))   # everything it ever had reason to keep on its list
        self.at = None                       # the node it was suspended at: (node, its subtree then, moved before then)
        self.gone = set()                    # taken away from below the node handed out: must not turn up

    def suspend(self, m, i):
        self.at = (i, set(m.preorder(i)) - self.touched, set(self.touched))

    def resume(self, m):
        """What the consumer did below the node it was handed takes effect.  Only nodes without another history count."""
        if self.at is None:
            return 0
        x, sub, before = self.at
        self.at = None
        self.gone |= {j for j in sub if not m.below(x, j) and not m.below(self.root, j)}
        if x in self.touched or x not in self.owed:
            return 0
        fresh = set()
        for j in m.preorder(x)[1:]:
            up = m.parent[j]
            if j not in self.known and j not in before and j not in self.seen and (up == x or up in fresh):
                fresh.add(j)
        self.known |= fresh
        self.touched -= fresh
        want = {j for j in fresh if self.cls is None or isinstance(m.nodes[j], getattr(m.N, self.cls))}
        block = [j for j in m.preorder(x)[1:] if j in want or j in self.owed]
        rest = [j for j in self.owed if j not in block]
        at = rest.index(x) + 1
        self.owed = rest[:at] + block + rest[at:]
        return len(want)


class Model:
    def __init__(self, pool):
        self.N = site.rsm.nodes
        self.nodes = [getattr(self.N, c)() for c in pool]
        self.index = {id(x): i for i, x in enumerate(self.nodes)}
        self.parent = [None] * len(pool)
        self.kids = [[] for _ in pool]

    def holder(self, i):
        return isinstance(self.nodes[i], self.N.NodeWithChildren)

    def allowed(self, child, parent):
        pp = type(self.nodes[child]).possible_parents
        return not pp or type(self.nodes[parent]) in pp

    def below(self, i, j):
        """is j in the subtree of i"""
        while j is not None:
            if j == i:
                return True
            j = self.parent[j]
        return False

    def preorder(self, i):
        out, st = [], [i]
        while st:
            x = st.pop()
            out.append(x)
            st += self.kids[x][::-1]
        return out

    def take(self, child):
        p = self.parent[child]
        if p is not None:
            self.kids[p].remove(child)
            self.parent[child] = None

    def put(self, child, parent, at):
        self.kids[parent].insert(at, child)
        self.parent[child] = parent

    def name(self, i):
        return f"{type(self.nodes[i]).__name__}#{i}"

    def differs(self):
        for i, x in enumerate(self.nodes):
            got = [self.index.get(id(c), "?") for c in x.children]
            if got != self.kids[i]:
                return f"the children of {self.name(i)} are {got} instead of {self.kids[i]}"
            p = None if x.parent is None else self.index.get(id(x.parent), "?")
            if p != self.parent[i]:
                return f"the parent of {self.name(i)} is {p} instead of {self.parent[i]}"
        return None

    def broken(self):
        """invariants only; on success adopt the actual shape"""
        kids = [[self.index.get(id(c), "?") for c in x.children] for x in self.nodes]
        where = {}
        for i, ks in enumerate(kids):
            for k in ks:
                if k == "?" or k in where:
                    return f"{k if k == '?' else self.name(k)} is a child twice"
                where[k] = i
        for i, x in enumerate(self.nodes):
            p = None if x.parent is None else self.index.get(id(x.parent), "?")
            if p != where.get(i):
                return f"{self.name(i)} says its parent is {p}, but it is a child of {where.get(i)}"
        for i in where:
            up, seen = i, set()
            while up is not None:
                if up in seen:
                    return f"{self.name(i)} lies below itself"
                seen.add(up)
                up = where.get(up)
        self.kids, self.parent = kids, [where.get(i) for i in range(len(self.nodes))]
        return None

    def queries(self, i):
        """the read side of node i, against the model"""
        N, x = self.N, self.nodes[i]
        if [self.index[id(n)] for n in x.traverse()] != self.preorder(i):
            return f"traversing {self.name(i)} gives a wrong order"
        p = self.parent[i]
        sib = self.kids[p] if p is not None else [i]
        k = sib.index(i)

        def ix(n):
            return None if n is None else self.index[id(n)]
        if ix(x.prev_sibling()) != (sib[k - 1] if k else None):
            return f"previous sibling of {self.name(i)} is {ix(x.prev_sibling())}"
        if ix(x.next_sibling()) != (sib[k + 1] if k + 1 < len(sib) else None):
            return f"next sibling of {self.name(i)} is {ix(x.next_sibling())}"
        same = [j for j in sib[:k] if isinstance(self.nodes[j], type(x))]
        if ix(x.prev_sibling("self")) != (same[-1] if same else None):
            return f"previous sibling of the same type of {self.name(i)} is {ix(x.prev_sibling('self'))}"
        same = [j for j in sib[k + 1:] if isinstance(self.nodes[j], type(x))]
        if ix(x.next_sibling("self")) != (same[0] if same else None):
            return f"next sibling of the same type of {self.name(i)} is {ix(x.next_sibling('self'))}"
        for c in (N.Text, N.Span, N.Section):
            m = [(j, q) for q, j in enumerate(self.kids[i]) if isinstance(self.nodes[j], c)]
            for f, want in ((x.first_of_type, m[0] if m else (None, None)), (x.last_of_type, m[-1] if m else (None, None))):
                n, q = f(c, return_idx=True)
                if (ix(n), q) != want or ix(f(c)) != want[0]:
                    return f"{f.__name__} of {self.name(i)} gives {(ix(n), q)} instead of {want}"
            a = p
            while a is not None and type(self.nodes[a]) is not c:
                a = self.parent[a]
            if ix(x.first_ancestor_of_type(c)) != a:
                return f"first ancestor {c.__name__} of {self.name(i)} is {ix(x.first_ancestor_of_type(c))} instead of {a}"
        return None


def execute(plan):
    m = Model(plan["pool"])
    n = len(m.nodes)
    stats, events, travs, v, hits = {}, [], [], None, 0

    def count(k, c=1):
        stats[k] = stats.get(k, 0) + int(c)

    def touch(i):
        """i is about to change place: suspended traversals owe nothing for it and what is below it"""
        for t in travs:
            if t.live:
                t.touched |= set(m.preorder(i))
                t.gone -= set(m.preorder(i))

    def attempt(fn):
        try:
            fn()
            return None
        except Boom:
            return "Boom"
        except (m.N.RSMNodeError, TypeError, ValueError, AttributeError) as e:
            return type(e).__name__

    def advance(t, k):
        nonlocal v
        for _ in range(k):
            try:
                count("probe:added_below_the_visited", t.resume(m) > 0)
                count("probe:removed_below_the_visited", bool(t.gone))
                x = next(t.gen)
            except StopIteration:
                t.live = False
                count("probe:traversal_finished")
                want = [i for i in t.owed if i not in t.touched]
                got = [i for i in t.seen if i not in t.touched and i in set(t.owed)]
                if got != want:
                    v = viol("traversal", f"a traversal of {m.name(t.root)} visited {got} of the nodes nobody moved, instead of {want}")
                return None
            i = m.index.get(id(x))
            if t.cls and not isinstance(x, getattr(m.N, t.cls)):
                v = viol("traversal", f"a traversal for {t.cls} yielded {type(x).__name__}")
                return None
            t.seen.append(i)
            if i in t.gone:
                v = viol("traversal", f"a traversal of {m.name(t.root)} visited {m.name(i)}, which was taken out of the tree before its parent was expanded")
                return None
            t.suspend(m, i)
            if len(t.seen) > 50 * n:
                v = viol("traversal", "a traversal does not come to an end")
                return None
        return t.seen[-1] if t.seen else None

    for op in plan["ops"]:
        k = op[0]
        if any(isinstance(x, int) and x >= n for x in op[1:3] if k not in ("next", "wrap")):
            continue
        suspended = any(t.live and t.seen for t in travs)
        if k == "start":
            if len(travs) < 4:
                travs.append(Trav(m, op[1], op[2]))
                count("probe:two_traversals", sum(t.live for t in travs) > 1)
                events.append([k, op[1]])
            continue
        if k in ("next", "wrap"):
            live = [t for t in travs if t.live]
            if not live:
                continue
            t = live[op[1] % len(live)]
            i = advance(t, op[2] if k == "next" else 1)
            events.append([k, i])
            if v:
                break
            # the documented recipe: wrap the node just visited
            if k == "wrap" and i is not None and t.live and op[2] < n:
                w = op[2]
                if m.parent[i] is not None and m.parent[w] is None and m.holder(w) and not m.below(w, i) and m.allowed(w, m.parent[i]) and m.allowed(i, w):
                    for u in travs:   # i keeps its subtree: what is below it is still owed, once
                        if u.live:
                            u.touched |= set(m.preorder(w)) | (set(m.preorder(i)) if u is not t else set())
                            u.gone -= set(m.preorder(w)) | set(m.preorder(i))
                    p, at = m.parent[i], m.kids[m.parent[i]].index(i)
                    err = attempt(lambda: (m.nodes[i].replace_self(m.nodes[w]), m.nodes[w].append(m.nodes[i])))
                    if err:
                        v = viol("refused", f"wrapping {m.name(i)} in {m.name(w)} during a traversal failed with {err}")
                        break
                    m.take(i)
                    m.put(w, p, at)
                    m.put(i, w, len(m.kids[w]))
                    count("probe:wrapped_in_traversal")
                    hits += 1
                    if d := m.differs():
                        v = viol("tree", f"after wrapping during a traversal {d}")
                        break
            continue
        if k.endswith("_here"):   # an edit by the consumer, below the node it was handed last
            at = [t.seen[-1] for t in travs if t.live and t.seen]
            if not at or not m.holder(at[-1]):
                continue
            ks = m.kids[at[-1]]
            if k == "append_here":
                op = ["append", at[-1], op[1]]
            elif k == "clear_here":
                op = ["clear", at[-1]]
            elif ks:
                op = ["remove", at[-1], ks[op[1] % len(ks)]]
            else:
                continue
            k = op[0]
        a = op[1]
        x = m.nodes[a]
        err, want, free = None, None, False
        if k == "append":
            b = op[2]
            if not m.holder(a):
                continue
            cyc = m.parent[b] is None and m.below(b, a)
            count("probe:asked_below_itself", cyc)
            if m.parent[b] is not None or not m.allowed(b, a) or cyc:
                want = "RSMNodeError"
            touch(b)
            err = attempt(lambda: x.append(m.nodes[b]))
            if not err:
                m.put(b, a, len(m.kids[a])) if not want else None
        elif k in ("append_many", "prepend_many"):
            many = list(dict.fromkeys(j for j in op[2] if j < n))
            if not m.holder(a):
                continue
            cyc = {j for j in many if m.below(j, a)}
            count("probe:asked_below_itself", bool(cyc))
            items = [m.nodes[j] for j in many]
            arg = items
            if k == "append_many":
                if op[3] == "tuple":
                    arg = tuple(items)
                elif op[3] == "gen":
                    arg = (z for z in items)
                elif op[3] == "fail":
                    def failing():
                        for q, z in enumerate(items):
                            if q == op[4]:
                                raise Boom()
                            yield z
                        if op[4] >= len(items):
                            raise Boom()
                    arg = failing()
                    want = "Boom"
                    count("fault:iterator_failed")
            if k == "append_many":
                bad = [j for j in many if m.parent[j] is not None or not m.allowed(j, a) or j in cyc]
            else:
                bad = [j for j in many if m.parent[j] not in (None, a) or not m.allowed(j, a) or j in cyc]
            for j in many:
                touch(j)
            err = attempt(lambda: (x.append if k == "append_many" else x.prepend)(arg))
            if bad or want:
                free = True
                if not err:
                    v = viol("accepted", f"{k} to {m.name(a)} accepted {bad and m.name(bad[0])}, which it must refuse, or hid an error of its argument")
                    break
            elif not err:
                if k == "prepend_many":
                    for j in many:
                        m.take(j)
                for q, j in enumerate(many):
                    m.put(j, a, q if k == "prepend_many" else len(m.kids[a]))
        elif k == "prepend":
            b = op[2]
            if not m.holder(a):
                continue
            cyc = m.below(b, a)
            count("probe:asked_below_itself", cyc)
            if m.parent[b] not in (None, a) or not m.allowed(b, a) or cyc:
                want = "RSMNodeError"
            touch(b)
            err = attempt(lambda: x.prepend(m.nodes[b]))
            if not err and not want:
                count("probe:move_to_front", m.parent[b] == a)
                m.take(b)
                m.put(b, a, 0)
        elif k == "remove":
            b = op[2]
            if not m.holder(a):
                continue
            if m.parent[b] != a:
                want = "any"
            touch(b)
            err = attempt(lambda: x.remove(m.nodes[b]))
            if not err and not want:
                m.take(b)
        elif k == "remove_self":
            touch(a)
            err = attempt(x.remove_self)
            if not err:
                m.take(a)
        elif k == "replace":
            reps = list(dict.fromkeys(j for j in op[2] if j < n))
            if not reps:
                continue
            p = m.parent[a]
            cyc = p is not None and any(m.below(j, p) for j in reps)
            count("probe:asked_below_itself", cyc)
            if p is None or any((m.parent[j] is not None and j != a) or not m.allowed(j, p) for j in reps) or cyc:
                want = "RSMNodeError"
            for j in reps:
                touch(j)
            touch(a)
            arg = m.nodes[reps[0]] if len(reps) == 1 and op[3] else [m.nodes[j] for j in reps]
            err = attempt(lambda: x.replace_self(arg))
            if not err and not want:
                at = m.kids[p].index(a)
                m.take(a)
                for q, j in enumerate(reps):
                    m.put(j, p, at + q)
                count("probe:replaced_by_many", len(reps) > 1)
        elif k == "clear":
            if not m.holder(a):
                continue
            for j in m.kids[a]:
                touch(j)
            err = attempt(x.clear)
            if not err:
                for j in list(m.kids[a]):
                    m.take(j)
        elif k == "parent":
            b = op[2]
            if m.allowed(a, b) and not m.below(a, b):
                continue   # a direct assignment that is legal is half an edit: the caller's own business
            want = "RSMNodeError"

            def assign():
                x.parent = m.nodes[b]
            err = attempt(assign)
        events.append([k, a, err])
        if suspended:
            count("probe:edit_during_traversal")
            hits += 1
        if err:
            count("probe:rejected_edit")
            hits += 1
        if v:
            break
        if free:
            d = m.broken()
            if d:
                v = viol("tree", f"after {k} on {m.name(a)} stopped half way: {d}")
                break
            continue
        if want and not err:
            v = viol("accepted", f"{k} on {m.name(a)} with {op[2] if len(op) > 2 else ''} was accepted but must be refused")
            break
        if err and not want:
            v = viol("refused", f"{k} on {m.name(a)} with {op[2] if len(op) > 2 else ''} failed with {err}")
            break
        d = m.differs()
        if d:
            v = viol("tree", f"after {'a refused ' if err else ''}{k} on {m.name(a)} {op[2:]}: {d}")
            break
        for i in {a, op[2] if len(op) > 2 and isinstance(op[2], int) else a}:
            d = m.queries(i)
            if d:
                v = viol("query", f"after {k}: {d}")
                break
        if v:
            break
    if v is None:
        for t in travs:
            while t.live and not v:
                advance(t, 10)
    sig = hashlib.sha256(json.dumps([plan["pool"], events]).encode()).hexdigest()[:16]
    count("operations", len(events))
    return dict(violation=v, nontrivial=bool(hits), sig=sig, stats=stats, sample={"pool": plan["pool"][:8], "ops": plan["ops"][:10]}, events=events, sim_ms=0)
