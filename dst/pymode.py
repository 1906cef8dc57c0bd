"""Parallel loops at statement granularity: the source of the repository's kernels under a scheduler.

numbasim executes the real machine code, but each worker's piece runs without being preempted.  Here
the Python source of every jitted function is executed instead, with the body of each outermost
parallel loop turned into a task function: workers are real threads of which exactly one runs at a
time, the baton can pass to another worker before every statement of the loop body and of the helpers
it calls, and np.empty is filled with garbage from the fault stream.  Code whose iterations share
nothing computes the same bits under every interleaving; the serial execution is the reference.

Loop shapes whose meaning in numba this translation cannot be sure to keep (reductions, names carried
out of the loop) are not translated: Unsupported is raised and the caller skips this engine.
"""
import ast
import contextlib
import inspect
import sys
import textwrap
import threading
import types

import numpy as np

from dst.core import HarnessError, Violation

MAX_STEPS = 60000


class Unsupported(Exception):
    pass


class _Abort(BaseException):
    pass


class Engine:
    """State of one py-mode execution."""

    def __init__(self, sim, interleave, workers, poison):
        self.sim, self.interleave, self.workers, self.poison = sim, interleave, workers, poison
        self.inside = False
        self.current = None
        self.budget = 10 ** 9
        self.steps = 0
        self.loops = 0
        self.lost = 0
        self.live = []
        self.back = threading.Semaphore(0)
        self.fatal = None

    # -- called from translated code -----------------------------------------------------------
    def y(self):
        if self.current is None:
            return
        self.steps += 1
        if self.fatal:
            raise _Abort()
        if self.steps > MAX_STEPS:
            self.fatal = "budget"
            raise _Abort()
        self.budget -= 1
        if self.budget < 0 and len(self.live) > 1:
            self._pass(self.current)

    def _draw(self, me):
        live = self.live
        i = self.sim.s.below(len(live))
        self.budget = self.sim.s.pick((0, 1, 2, 0, 4, 7, 15, 40))
        if me in live:
            i = (live.index(me) + i) % len(live)
        self.sim.schedule_event(live[i].name, self.budget)
        return live[i]

    def _pass(self, me):
        nxt = self._draw(me)
        if nxt is not me:
            self.current = nxt
            nxt.go.release()
            me.go.acquire()

    def parfor(self, body, rng):
        items = list(rng)
        self.loops += 1
        if not self.interleave or self.inside or len(items) < 2 or self.workers < 2:
            for i in items:
                try:
                    body(i)
                except _Abort:
                    raise
                except Exception:  # noqa
                    if self.inside:
                        raise
                    self.lost += 1
                    return
            return
        k = min(self.workers, len(items))
        s = self.sim.s
        cuts = [0] + sorted(s.below(len(items) + 1) for _ in range(k - 1)) + [len(items)]
        if s.chance(50):
            cuts = [len(items) * j // k for j in range(k + 1)]
        self.sim.schedule_event("cut", *cuts)
        workers = [_Worker(self, f"w{j}", body, items[cuts[j]:cuts[j + 1]]) for j in range(k)]
        self.live = [w for w in workers if w.items]
        for w in self.live:
            w.start()
        self.inside = True
        first = self._draw(None)
        self.current = first
        first.go.release()
        ok = self.back.acquire(timeout=100)
        self.current = None
        self.inside = False
        self.budget = 10 ** 9
        if not ok:
            raise HarnessError("py-mode workers are stuck")
        for w in workers:
            if w.thread:
                w.thread.join(5)
        if self.fatal:
            raise Unsupported("step budget")

    def finished(self, w):
        self.live.remove(w)
        if self.live:
            nxt = self._draw(None)
            self.current = nxt
            nxt.go.release()
        else:
            self.back.release()

    def empty(self, shape, dtype=float, *a, **k):
        out = np.empty(shape, dtype, *a, **k)
        return _poison(out, self.poison)

    def empty_like(self, proto, *a, **k):
        return _poison(np.empty_like(proto, *a, **k), self.poison)


def _poison(a, byte):
    if a.dtype != object and a.size:
        a.view()
        flat = np.frombuffer(a, dtype=np.uint8) if a.flags.c_contiguous else None
        if flat is not None:
            np.ndarray(a.nbytes, np.uint8, a)[:] = byte
    return a


class _Worker:
    def __init__(self, eng, name, body, items):
        self.eng, self.name, self.body, self.items = eng, name, body, items
        self.go = threading.Semaphore(0)
        self.thread = None

    def start(self):
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        self.go.acquire()
        try:
            with np.errstate(all="ignore"):
                for i in self.items:
                    self.body(i)
        except _Abort:
            pass
        except Exception:  # noqa   an error inside a worker is lost, the rest of its piece is skipped
            self.eng.lost += 1
        self.eng.finished(self)


# -- source translation ---------------------------------------------------------------------------
def _is_prange(node):
    return (
        isinstance(node, ast.For) and isinstance(node.iter, ast.Call)
        and ((isinstance(node.iter.func, ast.Name) and node.iter.func.id == "prange")
             or (isinstance(node.iter.func, ast.Attribute) and node.iter.func.attr == "prange"))
    )


def _stores(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def _loads(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
    return out


class _Yields(ast.NodeTransformer):
    """Inserts __eng.y() before every statement, and turns inner prange into range."""

    def _block(self, stmts):
        out = []
        for s in stmts:
            s = self.visit(s)
            call = ast.parse("__eng.y()").body[0]
            out += [ast.copy_location(call, s), s]
        return out

    def generic_visit(self, node):
        for field in ("body", "orelse", "finalbody"):
            v = getattr(node, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, field, self._block(v))
        for h in getattr(node, "handlers", []):
            h.body = self._block(h.body)
        return node


class _Continues(ast.NodeTransformer):
    def visit_For(self, node):
        return node

    visit_While = visit_For

    def visit_Continue(self, node):
        return ast.copy_location(ast.Return(value=None), node)

    def visit_Break(self, node):
        raise Unsupported("break out of a parallel loop")

    def visit_Return(self, node):
        raise Unsupported("return out of a parallel loop")


def _check_no_return(stmts):
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Return):
                raise Unsupported("return out of a parallel loop")
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.Lambda, ast.FunctionDef)):
                raise Unsupported(type(x).__name__)


class _Outer(ast.NodeTransformer):
    def __init__(self, fn):
        self.fn = fn
        self.params = {a.arg for a in fn.args.args}
        self.k = 0

    def visit_For(self, node):
        if not _is_prange(node):
            self.generic_visit(node)
            return node
        if not isinstance(node.target, ast.Name) or node.orelse:
            raise Unsupported("loop target")
        _check_no_return(node.body)
        inner = _stores(node.body)
        outside = _names_outside(self.fn, node)
        target = node.target.id
        clash = (inner - {target}) & (outside["stores"] | self.params)
        carried = (inner - {target}) & outside["loads"]
        if clash - outside["pranges"] or carried:
            raise Unsupported("carried names " + ",".join(sorted(clash | carried)))
        body = [_Continues().visit(s) for s in node.body]
        body = _Yields()._block(body)
        name = f"__body{self.k}"
        self.k += 1
        fdef = ast.parse(f"def {name}({target}):\n    pass").body[0]
        fdef.body = body
        rng = ast.Call(func=ast.Name("range", ast.Load()), args=node.iter.args, keywords=[])
        call = ast.Expr(ast.Call(
            func=ast.Attribute(ast.Name("__eng", ast.Load()), "parfor", ast.Load()),
            args=[ast.Name(name, ast.Load()), rng], keywords=[]))
        return [ast.copy_location(fdef, node), ast.copy_location(call, node)]


def _names_outside(fn, loop):
    """Names stored / loaded in fn outside `loop`; names private to other parallel loops do not count."""
    stores, loads, pr = set(), set(), set()

    def walk(n, priv):
        if n is loop:
            for a in n.iter.args:
                walk(a, priv)
            return
        if _is_prange(n):
            mine = _stores(n.body) | {n.target.id if isinstance(n.target, ast.Name) else ""}
            for a in n.iter.args:
                walk(a, priv)
            for c in n.body:
                walk(c, priv | mine)
            return
        if isinstance(n, ast.Name) and n.id not in priv:
            (loads if isinstance(n.ctx, ast.Load) else stores).add(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c, priv)

    for s in fn.body:
        walk(s, frozenset())
    return dict(stores=stores, loads=loads, pranges=pr)


class _NpProxy(types.ModuleType):
    def __init__(self, real, eng):
        super().__init__("np")
        self.__dict__["_real"] = real
        self.__dict__["empty"] = eng.empty
        self.__dict__["empty_like"] = eng.empty_like

    def __getattr__(self, k):
        return getattr(self._real, k)


def _dispatchers():
    from numba.core.dispatcher import Dispatcher

    found = {}
    for name, mod in list(sys.modules.items()):
        if name.startswith("mizarlabs") and mod is not None:
            for k, v in list(vars(mod).items()):
                if isinstance(v, Dispatcher) and (v.py_func.__module__ or "").startswith("mizarlabs"):
                    found.setdefault(id(v), (v, []))[1].append((mod, k))
    return found


def _translate(disp):
    src = textwrap.dedent(inspect.getsource(disp.py_func))
    tree = ast.parse(src)
    fn = tree.body[0]
    if not isinstance(fn, ast.FunctionDef):
        raise Unsupported("not a function")
    fn.decorator_list = []
    fn.returns = None
    for a in fn.args.args:
        a.annotation = None
    if disp.targetoptions.get("parallel"):
        fn = _Outer(fn).visit(fn)
    else:
        fn.body = _Yields()._block(fn.body)
    fn.name = "__f"
    tree.body = [fn]
    ast.fix_missing_locations(tree)
    return compile(tree, f"<py-mode {disp.py_func.__name__}>", "exec")


_codes = {}


def _code(disp):
    if id(disp) not in _codes:
        try:
            _codes[id(disp)] = (_translate(disp), disp)
        except Unsupported as e:
            _codes[id(disp)] = (e, disp)
        except (OSError, TypeError, SyntaxError) as e:
            _codes[id(disp)] = (Unsupported(str(e)), disp)
    c = _codes[id(disp)][0]
    if isinstance(c, Unsupported):
        raise c
    return c


@contextlib.contextmanager
def active(sim, interleave, workers=4, poison=0):
    """Every jitted function of the repository is replaced by its source under the scheduler."""
    eng = Engine(sim, interleave, workers, poison)
    disps = _dispatchers()
    codes = {}
    for key, (d, places) in disps.items():
        codes[key] = _code(d)
    fns = {}
    spaces = {}
    for key, (d, places) in disps.items():
        g = dict(d.py_func.__globals__)
        g["__eng"] = eng
        g["prange"] = range
        for k, v in list(g.items()):
            if v is np:
                g[k] = _NpProxy(np, eng)
        spaces[key] = g
        exec(codes[key], g)
        fns[key] = g.pop("__f")
        if d.py_func.__defaults__:
            fns[key].__defaults__ = d.py_func.__defaults__
    for g in spaces.values():
        for k, v in list(g.items()):
            if id(v) in fns and v is disps.get(id(v), (None,))[0]:
                g[k] = fns[id(v)]
    patched = []
    try:
        for key, (d, places) in disps.items():
            for mod, name in places:
                patched.append((mod, name, getattr(mod, name)))
                setattr(mod, name, fns[key])
        with np.errstate(all="ignore"):
            yield eng
    finally:
        for mod, name, v in patched:
            setattr(mod, name, v)


def race_check(sim, what, api, same, workers=None):
    """api() under a serial and an interleaved schedule must give the same result."""
    workers = workers or sim.s.between(2, 5)
    poison = sim.f.pick((0, 0xFF, 0x40, 0x3F, 0xC0))
    try:
        with active(sim, False, poison=poison) as e0:
            try:
                ref = api()
            except Exception as e:  # noqa   the translation cannot execute this code
                raise Unsupported(f"{type(e).__name__}: {e}")
        with active(sim, True, workers=workers, poison=poison) as e1:
            try:
                got = api()
            except Unsupported:
                raise
            except Exception as e:  # noqa
                got = e
    except Unsupported as e:
        sim.probe("statement-level engine skipped")
        sim.log("py-mode skipped", e)
        return None
    sim.probe("statement-level executions")
    sim.probe("statement-level steps", e1.steps)
    if poison:
        sim.fault("heap garbage")
    if isinstance(got, Exception):
        raise Violation("schedule-dependent", f"{what}: raises {type(got).__name__}: {got} with {workers} "
                                              "interleaved workers and does not with one worker")
    diff = same(ref, got)
    if diff is not None:
        raise Violation("schedule-dependent",
                        f"{what}: with {workers} interleaved workers the result differs from the serial one: {diff}")
    return ref
