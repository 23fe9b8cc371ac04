"""Interpreter events inside the library: the seam for thread scheduling and crash points.

Only code of the library under test is instrumented (sys.monitoring, local events)."""
import ast
import gc
import os
import sys
import types

from fsim import env

TOOL = 3
M = sys.monitoring
_protected = {}


def code_objects(fm):
    """Every code object of one instance of the library."""
    mods = {id(vars(getattr(fm, m))): m for m in env.MODULES}
    mods[id(vars(fm.fmmax))] = "__init__"
    out, todo = {}, []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(env.PKG_DIR) and id(o.__globals__) in mods:
            todo.append(o.__code__)
    while todo:
        c = todo.pop()
        if id(c) in out:
            continue
        out[id(c)] = c
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return sorted(out.values(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname))


def protected_lines(filename):
    """Lines of cleanup code, and `try:` lines themselves. An interruption of the cleanup
    itself cannot be survived by any code, so none is injected there."""
    if filename not in _protected:
        lines = set()
        try:
            tree = ast.parse(open(filename).read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])
        for n in ast.walk(tree):
            if isinstance(n, (ast.Try, getattr(ast, "TryStar", ast.Try))):
                lines.add(n.lineno)
                for q in n.finalbody:
                    lines.update(range(q.lineno, (q.end_lineno or q.lineno) + 1))
                for h in n.handlers:  # code that undoes something and raises again
                    if any(isinstance(x, ast.Raise) for x in ast.walk(h)):
                        lines.update(range(h.lineno, (h.end_lineno or h.lineno) + 1))
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name in ("__exit__", "__aexit__", "__del__"):
                lines.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
        _protected[filename] = lines
    return _protected[filename]


class Probe:
    """Calls `handler(code, line, kind)` at every chosen event in the library; the handler
    may raise (a crash at that point) or block (a preemption)."""

    def __init__(self, fm, handler, kind="line", codes=None):
        self.codes = codes if codes is not None else code_objects(fm)
        self.handler = handler
        self.kind = kind

    def _line(self, code, line):
        self.handler(code, line, "line")

    def _call(self, code, offset, callee, arg0):
        self.handler(code, offset, "call")

    def _instr(self, code, offset):
        self.handler(code, offset, "instr")

    def __enter__(self):
        M.use_tool_id(TOOL, "fsim")
        if self.kind == "line":
            ev = M.events.LINE
            M.register_callback(TOOL, ev, self._line)
        elif self.kind == "call":
            ev = M.events.CALL
            M.register_callback(TOOL, ev, self._call)
        else:
            ev = M.events.INSTRUCTION
            M.register_callback(TOOL, ev, self._instr)
        self.ev = ev
        for c in self.codes:
            M.set_local_events(TOOL, c, ev)
        return self

    def __exit__(self, *exc):
        for c in self.codes:
            M.set_local_events(TOOL, c, 0)
        M.register_callback(TOOL, self.ev, None)
        M.free_tool_id(TOOL)
        return False


_lines = {}


def line_of(code, offset):
    """Source line of an instruction offset."""
    key = id(code)
    if key not in _lines:
        _lines[key] = (code, sorted((s, e, l) for s, e, l in code.co_lines()))
    for s, e, l in _lines[key][1]:
        if s <= offset < e:
            return l
    return None


def where(code, line):
    return f"{os.path.basename(code.co_filename)}:{code.co_qualname}:{line}"
