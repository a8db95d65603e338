"""Shapes of parsed YANG statements and of the schema registry (shared)."""
from .dt import *
from pyvc import interp
from yangson.statement import Statement
from yangson.exceptions import *

STMT = ObjS(Statement)
MID = TupSeq(Str, lens=(2, 2))
OPTSTR = Opt(Str)
SCTX = ObjS(SchemaContext)
attrs(Statement, prefix=Opt(Str), keyword=Str, argument=Str, superstmt=Opt(STMT),
      substatements=ListS(STMT))
attrs(SchemaContext, schema_data=SD, default_ns=Str, text_mid=MID)


def key_of(v):
    return V.none if v is None else ops.to_V(v)


def find1_use(c, fn, args, kw):
    """find1: a function of the statement and the sought keyword, argument, prefix."""
    a = dict(zip(("self", "kw", "arg", "pref", "required"), args), **kw)
    t = uf("find1", I, V, V, V, I)(a["self"].ref, key_of(a["kw"]), key_of(a.get("arg")), key_of(a.get("pref")))
    if c.branch(t > 0):
        return STMT.wrap(t)
    if a.get("required") is True:
        raise PyExc(StatementNotFound)
    return None


def find_all_use(c, fn, args, kw):
    a = dict(zip(("self", "kw", "pref"), args), **kw)
    t = uf("find_all", I, V, V, I)(a["self"].ref, key_of(a["kw"]), key_of(a.get("pref")))
    return ListS(STMT).wrap(t)


def spec_find1(self, kw, arg=None, pref=None, required=False):
    hits = [s for s in self.substatements if s.keyword == kw and s.prefix == pref
            and (arg is None or s.argument == arg)]
    if hits:
        return hits[0]
    if required:
        raise StatementNotFound("", kw)
    return None


def spec_find_all(self, kw, pref=None):
    return [s for s in self.substatements if s.keyword == kw and s.prefix == pref]


ST = "yangson.statement:Statement."


def if_features_use(c, fn, args, kw):
    """if_features: a truth value per statement and module (decided by C13)."""
    return S("bool", uf("if_features", I, I, V, B)(args[0].ref, args[1].ref, ops.to_V(args[2])))
