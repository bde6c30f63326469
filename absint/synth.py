"""Classes whose methods the standard library generates: namedtuple, NamedTuple, dataclass, Enum.
The generated methods are written out as source and analysed like the repository's own."""
import ast

from .values import C, Tup, Wrap, Cls, Fn, Bi, Ref


def methods(it, cx, cls, sc, src, **consts):
    tree = ast.parse(src)
    for n in tree.body:
        for x in ast.walk(n):
            if hasattr(x, "lineno"):
                x.lineno = getattr(cls.node, "lineno", 1)
        fn = Fn(n, sc.modname, None, (), (), n.name, cls, any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in ast.walk(n)))
        v = fn
        dec = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
        if dec:
            v = Wrap(dec[0], fn)
        data = cx.st.write(cls.oid).data
        data.setdefault(n.name, v)


def sig(fields, st, cls, data, private):
    """parameter list; defaults are looked up in the class"""
    out = []
    pre = []
    for f, hasdef in fields:
        if hasdef:
            out.append(f"{f}=__DEF__")
        else:
            out.append(f)
    return ", ".join(out)


def with_defaults(it, cx, cls, sc, name, fields, body):
    """def name(self, fields...) with the values of defaults given as engine values"""
    params = ", ".join(["self"] + [f for f, _ in fields])
    node = ast.parse(f"def {name}({params}):\n" + "\n".join("    " + b for b in body or ["pass"])).body[0]
    for x in ast.walk(node):
        if hasattr(x, "lineno"):
            x.lineno = getattr(cls.node, "lineno", 1)
    defs = []
    for f, d in fields:
        if d is not None:
            defs.append(d)
        elif defs:
            from .interp import Unsupported
            raise Unsupported(f"field without default after one with default in {cls.name}")
    # the interpreter pairs defaults with the last parameters, as the ast does
    node.args.defaults = [ast.Constant(value=None) for _ in defs]
    cx.st.write(cls.oid).data[name] = Fn(node, sc.modname, None, tuple(defs), (), name, cls, False)


TUPLE = """
def __iter__(self):
    return iter(({items}))
def __len__(self):
    return {n}
def __getitem__(self, i):
    return ({items})[i]
def __eq__(self, other):
    return ({items}) == (tuple(other) if hasattr(other, "_fields") else other)
def __ne__(self, other):
    return not self == other
def __contains__(self, v):
    return v in ({items})
def __hash__(self):
    return hash(({items}))
def __lt__(self, other):
    return ({items}) < tuple(other)
def __gt__(self, other):
    return ({items}) > tuple(other)
def __add__(self, other):
    return ({items}) + tuple(other)
def index(self, v):
    return ({items}).index(v)
def count(self, v):
    return ({items}).count(v)
def _asdict(self):
    return {asdict}
def _replace(self, **kw):
    return type(self)(**{{**self._asdict(), **kw}})
def __repr__(self):
    return {rep}
def __setattr__(self, n, v):
    raise AttributeError("can't set attribute")
"""


def tuplelike(it, cx, cls, sc, fields):
    items = "".join(f"self.{f}, " for f, _ in fields)
    rep = "'" + cls.name + "(' + " + " + ', ' + ".join(f"'{f}=' + repr(self.{f})" for f, _ in fields) + " + ')'"
    with_defaults(it, cx, cls, sc, "__init__", fields, [f"object.__setattr__(self, '{f}', {f})" for f, _ in fields])
    methods(it, cx, cls, sc, TUPLE.format(items=items, n=len(fields), rep=rep,
                                          asdict="{" + ", ".join(f"'{f}': self.{f}" for f, _ in fields) + "}"))
    data = cx.st.write(cls.oid).data
    data["_fields"] = Tup(tuple(C(f) for f, _ in fields))
    src = ast.parse("@classmethod\ndef _make(cls, it):\n    return cls(*it)").body[0]
    data["_make"] = Wrap("classmethod", Fn(src, sc.modname, None, (), (), "_make", cls, False))


def annotated(node):
    out = []
    for s in node.body:
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.dump(s.annotation):
            out.append(s.target.id)
    return out


def named(it, cx, cls, sc):
    data = cx.st.get(cls.oid).data
    tuplelike(it, cx, cls, sc, [(f, data.get(f)) for f in annotated(cls.node)])
    d = cx.st.write(cls.oid).data
    for f in annotated(cls.node):
        d.pop(f, None)


FACT = Bi("dataclasses.MISSING")


def dataclass(it, cx, cls, sc, opts):
    from .interp import Unsupported
    if any(k not in ("frozen", "eq", "init", "repr", "slots", "unsafe_hash", "order") for k in opts):
        raise Unsupported("dataclass options")
    fields = []  # (name, default or None, factory or None)
    for c in reversed(it.mro(cls)):
        if not isinstance(c, Cls):
            continue
        own = it.dcfields.get(c.oid)
        if own is None and c is cls:
            own = []
            d = cx.st.write(c.oid).data
            for f in annotated(c.node):
                v = d.get(f)
                fac, init = None, True
                if isinstance(v, Wrap) and v.kind == "field":
                    v, fac, init = v.args
                    if v is None:
                        d.pop(f)
                    else:
                        d[f] = v
                    init = init is None or init.v
                own.append((f, v, fac, init))
            it.dcfields[c.oid] = own
        for x in own or []:
            fields = [y for y in fields if y[0] != x[0]] + [x] if x[0] not in [y[0] for y in fields] else \
                [x if y[0] == x[0] else y for y in fields]
    frozen = "frozen" in opts and opts["frozen"].v
    st = "object.__setattr__(self, '{0}', {1})" if frozen else "self.{0} = {1}"
    body, params = [], []
    d = cx.st.write(cls.oid).data
    for f, v, fac, init in fields:
        if fac is not None:
            d["_dc_factory_" + f] = Wrap("staticmethod", fac)
            if init:
                params.append((f, FACT))
                body.append(st.format(f, f"self._dc_factory_{f}() if {f} is _dc_missing_ else {f}"))
            else:
                body.append(st.format(f, f"self._dc_factory_{f}()"))
        elif init:
            params.append((f, v))
            body.append(st.format(f, f))
    if it.class_attr(cx.st, cls, "__post_init__") is not None:
        body.append("self.__post_init__()")
    body = [b.replace("_dc_missing_", "self._dc_missing") for b in body]
    d["_dc_missing"] = FACT
    if "__init__" not in d and not ("init" in opts and not opts["init"].v):
        with_defaults(it, cx, cls, sc, "__init__", params, body)
    tup = "".join(f"{{0}}.{f}, " for f, *_ in fields)
    src = ""
    if not ("eq" in opts and not opts["eq"].v):
        a, b = tup.format("self"), tup.format("other")
        src += f"def __eq__(self, other):\n    return type(self) is type(other) and ({a}) == ({b})\n"
        src += "def __ne__(self, other):\n    return not self == other\n"
        if frozen:
            src += f"def __hash__(self):\n    return hash(({a}))\n"
    if "order" in opts and opts["order"].v:
        for n, o in (("lt", "<"), ("gt", ">"), ("le", "<="), ("ge", ">=")):
            src += f"def __{n}__(self, other):\n    return ({tup.format('self')}) {o} ({tup.format('other')})\n"
    rep = "'" + cls.name + "(' + " + " + ', ' + ".join([f"'{f}=' + repr(self.{f})" for f, *_ in fields] or ["''"]) + " + ')'"
    src += f"def __repr__(self):\n    return {rep}\n"
    if frozen:
        src += "def __setattr__(self, n, v):\n    raise AttributeError('cannot assign to field')\n"
    methods(it, cx, cls, sc, src)
    return cls


def enum(it, cx, cls, sc):
    d = cx.st.get(cls.oid).data
    members = []
    auto = 0
    for k, v in list(d.items()):
        if k.startswith("_") or isinstance(v, (Fn, Wrap)):
            continue
        ref = cx.st.alloc("inst", cls, {"name": C(k), "value": v, "_name_": C(k), "_value_": v})
        members.append((k, v, ref))
    w = cx.st.write(cls.oid).data
    for k, v, ref in members:
        same = next((r for _, v2, r in members if v2 == v), ref)
        w[k] = same
    w["__members__"] = cx.st.alloc("dict", None, {k: r for k, _, r in [(C(a), b, w[a]) for a, b, _ in members]})
    w["_enum_"] = Tup(tuple((Tup((C(k), v, w[k]))) for k, v, _ in members))
    new = ast.parse("def __new__(cls, value):\n    for k, v, m in cls._enum_:\n        if v == value:\n            return m\n"
                    "    raise ValueError('not a valid member')").body[0]
    w["__new__"] = Fn(new, sc.modname, None, (), (), "__new__", cls, False)
    src = f"def __str__(self):\n    return '{cls.name}.' + self.name\ndef __repr__(self):\n    return '<{cls.name}.' + self.name + '>'\n"
    methods(it, cx, cls, sc, src)
