"""Contracts of ruleskit/activation.py about the file system (C18).

Ghost state: the set of files that existed when the operation started (fs.ex0).  Every effect on the file system is an event
with an obligation: a file created or written did not exist at the start, lies in the configured directory and follows the
naming pattern; a file removed is one the operation created, or (deletion) the vector's own."""
import z3
from core import Cx, Unsupported, PathEnd
from values import *
import fakes
from fakes import VPath, apath, adir, amatch, PathS
import c_activation as CA


def rule(own=None):
    def install(c, A):
        fs = c.fs
        tmp = A.DEFAULT_TEMPDIR.t
        made = []

        def ev(kind, p, before):
            if c.binders:
                raise Unsupported("file effect inside a comprehension")
            if kind in ("touch", "write"):
                if not any(q.eq(p) for q in made):
                    c.prove("creates only files that did not exist before", z3.And(z3.Not(fs.ex0(p)), z3.Not(before)))
                    c.prove("creates files of the activation pattern in the configured directory only", z3.And(adir(p) == tmp, amatch(p)))
                    made.append(p)
            elif kind == "unlink":
                ok = z3.Not(fs.ex0(p))
                if own is not None:
                    ok = z3.Or(ok, *[p == q for q in own(c)])
                c.prove("removes only its own files", ok)
        fs.on_event = ev
    return install


def filed(make, own=None):
    def m():
        u = make()

        def unit(c):
            c.memo["file_rule"] = rule(own)
            u(c)
            c.prove("no other effect on files", True)
        return unit
    return m


def ctor_files_unit(kind):
    """a vector stored on disk has a new file of its own"""
    def unit(c):
        c.memo["file_rule"] = rule()
        made = []
        CA.ctor_unit(kind, after=made.append)(c)
        obj = made[0]
        d = object.__getattribute__(obj, "__dict__")
        if d.get("data_format") == "file" and kind != "lazy path":
            c.reach("stored on disk")
            c.prove("a vector stored on disk has its own new file", z3.And(z3.Not(c.fs.ex0(d["data"].t)), c.fs.exists(d["data"].t)))
        else:
            c.prove("nothing is left on disk by a vector kept in memory", no_new_file(c))
    return unit


def no_new_file(c):
    q = z3.Const("q_path", PathS)
    return z3.ForAll([q], c.fs.exists(q) == c.fs.ex0(q))


def full_unit(kind):
    """every name drawn is taken"""
    def unit(c):
        c.memo["file_rule"] = lambda c, A: (setattr(c.fs, "base", lambda p: z3.BoolVal(True)), rule()(c, A))
        made = []
        CA.ctor_unit(kind, after=made.append)(c)
        d = object.__getattribute__(made[0], "__dict__")
        c.prove("when no free name is found the vector is kept in memory", d.get("data_format") != "file")
    return unit


def delete_unit(fmt):
    def unit(c):
        c.memo["file_rule"] = rule(lambda c: c.memo.get("own_files", []))
        w, A = CA.world(c)
        g = CA.Ghost(c)
        a = CA.mk(c, A, g, fmt)
        h = CA.Ghost(c, label="W")
        b = CA.mk(c, A, h, "file")
        own = c.memo["own_files"][:-1]
        other = c.memo["own_files"][-1]
        q = z3.Const("q_path", PathS)
        CA.guarded(c, f"deleting a vector stored as {fmt}", lambda: a.delete())
        c.reach("deleted")
        c.prove("deleting removes the vector's own file and nothing else",
                z3.ForAll([q], c.fs.exists(q) == z3.And(c.fs.ex0(q), *[q != o for o in own])))
        CA.inv(c, b, h, "deleting a vector leaves another one stored on disk intact")
    return unit


def clean_unit():
    def unit(c):
        w, A = CA.world(c)
        tmp = A.DEFAULT_TEMPDIR.t
        isd = z3.Function("is_dir", PathS, B)(tmp)
        q = z3.Const("q_path", PathS)
        fs = c.fs

        def prov(loop, env, k):
            if "glob" not in c.memo:
                return {}
            n, g, ix, d = c.memo["glob"]
            return {"exactly the files read so far have been removed":
                    z3.ForAll([q], fs.exists(q) == z3.And(fs.ex0(q), z3.Not(z3.And(adir(q) == d, amatch(q), ix(q) < k))),
                              patterns=[fs.exists(q)] if z3.is_app(fs.exists(q)) and fs.exists(q).decl().kind() == z3.Z3_OP_UNINTERPRETED else [])}
        c.invariants.append(prov)
        CA.guarded(c, "cleaning up", lambda: A.clean_files())
        c.reach("cleaned")
        gone = z3.And(adir(q) == tmp, amatch(q), isd)
        c.prove("cleaning up removes exactly the files of the configured directory that follow the naming pattern",
                z3.ForAll([q], fs.exists(q) == z3.And(fs.ex0(q), z3.Not(gone))))
    return unit


def units(prop):
    from main import Unit
    if prop != "C18":
        return []
    fn = lambda *n: ["ruleskit/activation.py: Activation." + x for x in n]
    out = []
    for k in CA.CTORS:
        out.append(Unit(f"files created by Activation(...) given {k}", lambda k=k: ctor_files_unit(k), fn("__init__", "_write", "_init_with_any"), 20))
        if k.startswith("array") or k == "path":
            out.append(Unit(f"no free name, Activation(...) given {k}", lambda k=k: full_unit(k), fn("__init__", "_write", "_init_with_any"), 15))
    T = {**CA.READERS, **CA.STATS}
    for fmt in CA.FORMATS:
        out.append(Unit(f"files touched by deleting a vector stored as {fmt}", lambda fmt=fmt: delete_unit(fmt), fn("delete"), 2))
        out.append(Unit(f"files touched by copying a vector stored as {fmt}", filed(lambda fmt=fmt: CA.copy_unit(fmt)), fn("__copy__"), 2))
        out.append(Unit(f"files touched by clearing a vector stored as {fmt}", filed(lambda fmt=fmt: CA.clear_unit(fmt)), fn("clear"), 2))
        for attr in ("as_integer", "as_bitarray", "coverage"):
            if fmt in ("file", "lazy"):
                out.append(Unit(f"files touched by reading {attr} of a vector stored as {fmt}",
                                filed(lambda fmt=fmt, attr=attr: CA.reader_unit(fmt, attr, T)), fn(attr), 8))
        for attr in CA.profile_names():
            if attr in ("sizeof_path", "sizeof_file", "time_write", "time_read"):
                out.append(Unit(f"files touched by reading {attr} of a vector stored as {fmt}",
                                filed(lambda fmt=fmt, attr=attr: CA.profile_unit(fmt, attr)), fn(attr, "_write", "_read"), 4))
    for op in CA.OPS:
        out.append(Unit(f"files touched by {op}", filed(lambda op=op: CA.op_unit(op)), fn(op), 5))
    for op in ("and", "or", "xor"):
        out.append(Unit(f"files touched by multi_logical_{op}", filed(lambda op=op: CA.multi_unit(op, None)), fn("multi_logical_" + op), 5))
    out.append(Unit("files touched by containment", filed(CA.contains_unit), fn("__contains__"), 3))
    out.append(Unit("files touched by correlation", filed(CA.corr_unit), fn("get_correlation"), 3))
    out.append(Unit("Activation.clean_files", clean_unit, fn("clean_files"), 3))
    return out
