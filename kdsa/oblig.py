"""Acquire/release obligations on every path of one function, exception paths included.

State: which acquisitions are open and which local names may hold them.  Any call, subscript or attribute store may fail,
so every statement that contains one contributes its state before the statement to the exception exit; `try` bodies route
those states to broad handlers, `finally` runs on all exits."""
import ast

CAP = 48


class Out:
    def __init__(self):
        self.next, self.ret, self.exc, self.brk, self.cont = set(), set(), set(), set(), set()

    def merge(self, o):
        self.ret |= o.ret
        self.exc |= o.exc
        self.brk |= o.brk
        self.cont |= o.cont


class Obligations:
    def __init__(self, func, acquire, release, safe=lambda call: False, handoff=None):
        """acquire(call) -> None or index of the tuple element that is the resource (-1: the value itself)
        release(call, names) -> True when the call releases the resource held by one of `names` (or everything: names None)
        safe(call): cannot fail.  handoff(node): expression passes ownership on (return value, attribute store)"""
        self.f, self.acquire, self.release, self.safe = func, acquire, release, safe
        self.handoff = handoff
        self.sites = {}

    def run(self):
        """[(acquire call, 'return'|'exception', node)] of obligations that are still open at an exit"""
        body = self.f.body if isinstance(self.f.body, list) else [ast.Return(self.f.body)]
        out = self.block(body, {(frozenset(), frozenset())})
        bad = []
        for st, node in {(s, None) for s in out.next} | out.ret:
            bad += [(self.sites[i], "return", node) for i in st[0]]
        for st, node in out.exc:
            bad += [(self.sites[i], "exception", node) for i in st[0]]
        seen, res = set(), []
        for b in bad:
            k = (b[0].lineno, b[0].col_offset, b[1])
            if k not in seen:
                seen.add(k)
                res.append(b)
        return sorted(res, key=lambda b: (b[0].lineno, b[1]))

    # state = (open ids, frozenset of (name, id))
    def block(self, stmts, states):
        out = Out()
        cur = set(states)
        for s in stmts:
            if not cur:
                break
            o = self.stmt(s, cur)
            out.merge(o)
            cur = o.next
            if len(cur) > CAP:
                cur = {(frozenset().union(*[c[0] for c in cur]), frozenset().union(*[c[1] for c in cur]))}
        out.next = cur
        return out

    def calls(self, e):
        """calls in evaluation order (inner first), not inside nested functions"""
        r = []

        def go(n):
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                return
            for c in ast.iter_child_nodes(n):
                go(c)
            if isinstance(n, ast.Call):
                r.append(n)
        go(e)
        return r

    def fails(self, e):
        for c in self.calls(e):
            if not self.safe(c) and not self.release(c, None):
                return True
        return any(isinstance(n, (ast.Subscript, ast.Await)) for n in ast.walk(e))

    def expr(self, e, st, target=None):
        opened, names = set(st[0]), set(st[1])
        for c in self.calls(e):
            for i in list(opened):
                ns = {n for n, j in names if j == i}
                if self.release(c, ns):
                    opened.discard(i)
            k = self.acquire(c)
            if k is not None:
                i = (c.lineno, c.col_offset)
                self.sites[i] = c
                opened.add(i)
                names = {(n, j) for n, j in names if j != i}
                t = None
                if target is not None and (e is c or (isinstance(e, ast.Await) and e.value is c)):
                    t = target
                    if k >= 0 and isinstance(t, (ast.Tuple, ast.List)) and k < len(t.elts):
                        t = t.elts[k]
                if isinstance(t, ast.Name):
                    names = {(n, j) for n, j in names if n != t.id} | {(t.id, i)}
                elif t is not None and not isinstance(t, ast.Name):
                    names = names | {(ast.unparse(t), i)}
        return (frozenset(opened), frozenset(names))

    def stmt(self, s, states):
        out = Out()
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                out.exc |= {(st, s) for st in states}
            out.next = set(states)
            return out
        if isinstance(s, ast.If):
            self.may_fail(s.test, states, out, s)
            a = {self.expr(s.test, st) for st in states}
            ta, fa = set(), set()
            for st in a:
                t = self.truth(s.test, st)
                if t is not False:
                    ta.add(st)
                if t is not True:
                    fa.add(st)
            x, y = self.block(s.body, ta), self.block(s.orelse, fa)
            out.merge(x)
            out.merge(y)
            out.next = x.next | y.next
            return out
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            e = s.iter if not isinstance(s, ast.While) else s.test
            cur = set(states)
            endless = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and bool(s.test.value)
            done = set()
            for _ in range(4):
                self.may_fail(e, cur, out, s)
                b = self.block(s.body, {self.expr(e, st) for st in cur})
                out.ret |= b.ret
                out.exc |= b.exc
                done |= b.brk
                new = cur | b.next | b.cont
                if new == cur:
                    break
                cur = new
            x = self.block(s.orelse, set() if endless else cur)
            out.merge(x)
            out.next = x.next | done
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            cur = set(states)
            managed = set()
            for it in s.items:
                self.may_fail(it.context_expr, cur, out, s)
                cur = {self.expr(it.context_expr, st, it.optional_vars) for st in cur}
            b = self.block(s.body, cur)
            out.merge(b)
            out.next = b.next
            return out
        if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            return self.s_try(s, states)
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.may_fail(s.value, states, out, s)
            for st in states:
                st2 = self.expr(s.value, st) if s.value is not None else st
                out.ret.add((self.hand(s.value, st2), s))
            return out
        if isinstance(s, ast.Raise):
            out.exc |= {(st, s) for st in states}
            return out
        if isinstance(s, ast.Break):
            out.brk = set(states)
            return out
        if isinstance(s, ast.Continue):
            out.cont = set(states)
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            v = s.value
            tg = s.targets if isinstance(s, ast.Assign) else [s.target]
            if v is None:
                out.next = set(states)
                return out
            self.may_fail(v, states, out, s)
            for t in tg:
                if any(isinstance(n, (ast.Subscript,)) for n in ast.walk(t)):
                    out.exc |= {(st, s) for st in states}
            for st in states:
                st2 = self.expr(v, st, tg[0])
                out.next.add(self.bind(tg, v, st2))
            return out
        if isinstance(s, ast.Match):
            cur = {self.expr(s.subject, st) for st in states}
            out.next = set(cur)
            for c in s.cases:
                b = self.block(c.body, cur)
                out.merge(b)
                out.next |= b.next
            return out
        # expression statements, del, assert, augmented assignment ...
        self.may_fail(s, states, out, s)
        for st in states:
            out.next.add(self.expr(s, st))
        if isinstance(s, ast.Assert):
            out.exc |= {(st, s) for st in states}
        return out

    def truth(self, t, st):
        """`name` / `name is not None` for a name that holds an open resource is true"""
        def held(n):
            return isinstance(n, ast.Name) and any(x == n.id for x, i in st[1] if i in st[0])
        if held(t):
            return True
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and held(t.operand):
            return False
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and held(t.left) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            return isinstance(t.ops[0], ast.IsNot)
        return None

    def hand(self, e, st):
        if e is None or self.handoff is None:
            return st
        opened = set(st[0])
        for i in list(opened):
            ns = {n for n, j in st[1] if j == i}
            if self.handoff(e, ns, self.sites[i]):
                opened.discard(i)
        return (frozenset(opened), st[1])

    def bind(self, targets, v, st):
        opened, names = set(st[0]), set(st[1])
        src = {j for n, j in names if isinstance(v, ast.Name) and n == v.id}
        for t in targets:
            if isinstance(t, ast.Name):
                if not any((t.id, i) in names and self.sites[i] in list(ast.walk(v)) for n, i in names if n == t.id):
                    names = {(n, j) for n, j in names if n != t.id}
                names |= {(t.id, j) for j in src}
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                st2 = self.hand(v, (frozenset(opened), frozenset(names)))
                opened = set(st2[0])
        return (frozenset(opened), frozenset(names))

    def may_fail(self, e, states, out, node):
        if self.fails(e):
            out.exc |= {(st, node) for st in states}

    def broad(self, h):
        return h.type is None or any(isinstance(n, ast.Name) and n.id in ("Exception", "BaseException") for n in ast.walk(h.type))

    def s_try(self, s, states):
        out = Out()
        b = self.block(s.body, states)
        excs = b.exc
        inner = Out()
        inner.ret |= b.ret
        inner.brk |= b.brk
        inner.cont |= b.cont
        o = self.block(s.orelse, b.next)
        inner.merge(o)
        nxt = o.next if s.orelse else set(b.next)
        if s.handlers:
            es = {st for st, n in excs}
            for h in s.handlers:
                r = self.block(h.body, es)
                inner.merge(r)
                nxt |= r.next
            if not any(self.broad(h) for h in s.handlers):
                inner.exc |= excs
        else:
            inner.exc |= excs
        if not s.finalbody:
            out.merge(inner)
            out.next = nxt
            return out

        def fin(sts):
            r = self.block(s.finalbody, sts)
            out.merge(r)
            return r.next
        out.next = fin(nxt)
        for kind in ("ret", "exc"):
            for st, n in getattr(inner, kind):
                for st2 in fin({st}):
                    getattr(out, kind).add((st2, n))
        out.brk |= fin(inner.brk)
        out.cont |= fin(inner.cont)
        return out
