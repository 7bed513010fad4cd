"""Loads generated SQLAlchemy modules against stand-ins of the sqlalchemy API.

One JSON request {"src": ...} per line; one JSON answer per line. The stand-ins
take the arguments of the real constructors and record what is declared."""
import sys, json, types, datetime, io

REC = {}

def typ(name, *params):
    def init(self, *a, **k):
        if len(a) > len(params):
            raise TypeError("%s() takes %d arguments" % (name, len(params)))
        self.args = dict(zip(params, a))
        for kk, v in k.items():
            if kk not in params:
                raise TypeError("%s() got an unexpected keyword argument %r" % (name, kk))
            if kk in self.args:
                raise TypeError("%s() got multiple values for %r" % (name, kk))
            self.args[kk] = v
    return type(name, (TypeEngine,), {"__init__": init})

class TypeEngine:
    pass

class TypeDecorator(TypeEngine):
    impl = None
    def __init__(self, *a, **k):
        if self.impl is None:
            raise AttributeError("TypeDecorator implementations require a class-level variable 'impl'")
        self.args = {}

STR = ("length", "collation", "convert_unicode")
T = {
    "String": STR, "Text": STR, "Unicode": STR, "UnicodeText": STR, "CHAR": STR, "VARCHAR": STR, "TEXT": STR,
    "Boolean": ("create_constraint", "name"),
    "Integer": (), "SmallInteger": (), "BigInteger": (), "INTEGER": (), "BIGINT": (), "SMALLINT": (),
    "Numeric": ("precision", "scale", "decimal_return_scale", "asdecimal"), "DECIMAL": ("precision", "scale", "decimal_return_scale", "asdecimal"),
    "Float": ("precision", "asdecimal", "decimal_return_scale"),
    "DateTime": ("timezone",), "TIMESTAMP": ("timezone",), "Date": (), "Time": ("timezone",), "Interval": (),
    "LargeBinary": ("length",), "BLOB": ("length",), "BINARY": ("length",), "VARBINARY": ("length",),
    "JSON": ("none_as_null",),
}

class Enum(TypeEngine):
    def __init__(self, *a, **k):
        self.args = {"values": list(a)}

class Column:
    KW = {"name", "type_", "autoincrement", "default", "doc", "key", "index", "unique", "info", "nullable", "onupdate", "primary_key", "server_default", "server_onupdate", "quote", "system", "comment"}
    def __init__(self, *a, **k):
        a = list(a)
        self.name = None
        self.type = None
        if a and isinstance(a[0], str):
            self.name = a.pop(0)
        if a and (isinstance(a[0], TypeEngine) or isinstance(a[0], type) and issubclass(a[0], TypeEngine)):
            self.type = a.pop(0)
            if isinstance(self.type, type):
                self.type = self.type()
        for x in a:
            if not isinstance(x, SchemaItem):
                raise TypeError("'SchemaItem' object, such as a 'Column' or a 'Constraint' expected, got %r" % (x,))
        for kk in k:
            if kk not in self.KW:
                raise TypeError("Unknown arguments passed to Column: %r" % kk)
        if "name" in k:
            if self.name is not None:
                raise TypeError("May not pass name positionally and as a keyword.")
            self.name = k["name"]
        self.k = k

class SchemaItem:
    pass

class UniqueConstraint(SchemaItem):
    def __init__(self, *cols, **k):
        for kk in k:
            if kk not in ("name", "deferrable", "initially", "info"):
                raise TypeError("UniqueConstraint got %r" % kk)
        REC["uniq"].append([list(cols), k.get("name")])

class ForeignKey(SchemaItem):
    def __init__(self, column, **k):
        pass

class Index(SchemaItem):
    def __init__(self, name, *cols, **k):
        pass

def default(v):
    d = datetime.datetime
    if v is None:
        return ""
    if v == d.now:
        return "now"
    if v == d.utcnow:
        return "utcnow"
    return repr(v)

class Meta(type):
    def __init__(cls, name, bases, ns):
        type.__init__(cls, name, bases, ns)
        if ns.get("_is_base"):
            return
        if any(b.__dict__.get("_is_base") is None for b in bases):
            raise TypeError("class %s does not derive from the declarative base" % name)
        cols = []
        for k, v in ns.items():
            if isinstance(v, Column):
                if k == "metadata":
                    raise ValueError("Attribute name %r is reserved" % k)
                cols.append({"attr": k, "name": v.name or k, "type": type(v.type).__name__ if v.type else "",
                             "args": dict((a, b) for a, b in v.type.args.items()) if v.type else {},
                             "pk": bool(v.k.get("primary_key")), "unique": bool(v.k.get("unique")),
                             "autoinc": v.k.get("autoincrement") is True,
                             "nullable": bool(v.k.get("nullable", not v.k.get("primary_key", False))),
                             "default": default(v.k.get("default")), "onupdate": default(v.k.get("onupdate"))})
        if "__tablename__" not in ns:
            raise ValueError("class %s has no table name" % name)
        REC["classes"].append({"name": name, "table": ns["__tablename__"], "cols": cols, "uniq": REC["uniq"]})
        REC["uniq"] = []

class RepresentableBase:
    pass

def declarative_base(cls=object, **k):
    REC["bases"] += 1
    return Meta("Base", (cls,) if cls is not object else (), {"_is_base": True})

sa = types.ModuleType("sqlalchemy")
for n, p in T.items():
    setattr(sa, n, typ(n, *p))
for c in (TypeDecorator, Enum, Column, UniqueConstraint, ForeignKey, Index):
    setattr(sa, c.__name__, c)
ext = types.ModuleType("sqlalchemy.ext"); dec = types.ModuleType("sqlalchemy.ext.declarative"); orm = types.ModuleType("sqlalchemy.orm")
sty = types.ModuleType("sqlalchemy.types")
for n in list(T) + ["TypeDecorator", "Enum"]:
    setattr(sty, n, getattr(sa, n))
dec.declarative_base = declarative_base
orm.declarative_base = declarative_base
sa.ext, ext.declarative, sa.orm, sa.types = ext, dec, orm, sty
rep = types.ModuleType("sqlalchemy_repr")
rep.RepresentableBase = RepresentableBase
sys.modules.update({"sqlalchemy": sa, "sqlalchemy.ext": ext, "sqlalchemy.ext.declarative": dec, "sqlalchemy.orm": orm, "sqlalchemy.types": sty, "sqlalchemy_repr": rep})

def load(src):
    REC.clear()
    REC.update({"classes": [], "uniq": [], "bases": 0})
    ns = {"__name__": "generated"}
    try:
        exec(compile(src, "generated.py", "exec"), ns)
        # run the methods of type decorators
        for v in list(ns.values()):
            if isinstance(v, type) and issubclass(v, TypeDecorator) and v is not TypeDecorator:
                o = v()
                u = datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone(datetime.timedelta(hours=2)))
                b = o.process_bind_param(u, None)
                if b != datetime.datetime(2020, 1, 2, 1, 4, 5):
                    raise ValueError("%s does not store UTC: %r" % (v.__name__, b))
                if o.process_result_value(b, None) != u or o.process_bind_param(None, None) is not None:
                    raise ValueError("%s does not restore the time" % v.__name__)
                try:
                    o.process_bind_param(datetime.datetime(2020, 1, 2), None)
                except TypeError:
                    pass
                else:
                    raise ValueError("%s accepts a time without a zone" % v.__name__)
    except BaseException as e:
        return {"err": "%s: %s" % (type(e).__name__, e)}
    if REC["bases"] != 1:
        return {"err": "%d declarative bases" % REC["bases"]}
    if REC["uniq"]:
        return {"err": "unique constraint outside of a class"}
    return {"classes": REC["classes"]}

out = sys.stdout
sys.stdout = sys.stderr
for line in sys.stdin:
    out.write(json.dumps(load(json.loads(line)["src"])) + "\n")
    out.flush()
