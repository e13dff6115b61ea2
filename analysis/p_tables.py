"""C22-C24, C30: the tables two sides of an interface must share, compared as the code on each side computes them."""
import itertools
import json
import os
import re

from p_types import *  # noqa
import bytevec
import cpi
import wire

PKT = "solana_program::pubkey::Pubkey"


# ------------------------------------------------------------------ clients
class Client:
    """One instruction of a generated client: its four ways of building the same call."""

    def __init__(self, ctx, crate, mod, name, plain):
        self.ctx, self.crate, self.mod, self.name = ctx, crate, mod, name
        self.P = ctx.prog(crate)
        self.plain = plain
        self.aty = self.P.types[plain.locals[1]]["e"]
        self.fields = self.struct_fields(self.aty)
        self.argty = None
        for k in range(2, plain.argc + 1):
            t = self.P.types[plain.locals[k]]
            if t["k"] == "adt":
                self.argty = plain.locals[k]
        self.memo = {}

    def struct_fields(self, ty):
        return [(n, t) for n, t in self.P.types[ty]["v"][0]["f"]]

    def kind(self, ty):
        """(optional, flagged, info) of an account field's type."""
        s = self.P.types[ty]["s"]
        opt = s.startswith("core::option::Option<")
        flag = s.startswith("(") or "<(" in s
        return opt, flag

    def args(self):
        return self.struct_fields(self.argty) if self.argty is not None else []

    def optional(self):
        return [n for n, t in self.fields if self.kind(t)[0]]

    def combos(self):
        o = self.optional()
        l = [dict(zip(o, c)) for c in itertools.product((1, 0), repeat=len(o))]
        if len(l) > 32:
            # all, none, each alone present, each alone absent
            l = [d for d in l if sum(d.values()) in (0, 1, len(o) - 1, len(o))]
        return l

    def fn(self, owner, name):
        rx = re.compile(r"^%s::%s(::<[^>]*>)?::%s$" % (re.escape(self.mod), owner, name))
        for p, l in self.P.by_path.items():
            if rx.match(p):
                return l[0]
        return None

    # -- values
    def account(self, I, st, n, ty, present=True):
        P, t = self.P, self.P.types[ty]
        if t["s"].startswith("core::option::Option<"):
            if not present:
                return mk("agg", ty, 0, ())
            return mk("agg", ty, 1, (self.account(I, st, n, t["args"][0]),))
        if t["k"] == "tuple":
            return mk("agg", ty, 0, (self.account(I, st, n, t["f"][0]), mk("sym", "flag:" + n, None)))
        if t["k"] == "ref":
            return self.info(I, st, n, t["e"])
        return mk("sym", "key:" + n, None)

    def info(self, I, st, n, ty):
        """A reference to the account info of the account called n."""
        key = "info:" + n
        c = st.named.get(key) if hasattr(st, "named") else None
        if c is None:
            vals = []
            for fnm, ft in self.P.types[ty]["v"][0]["f"]:
                if fnm == "key":
                    kc = st.newcell(mk("sym", "key:" + n, None))
                    vals.append(mk("ref", mk("cell", kc, ()), None))
                else:
                    vals.append(mk("sym", "%s:%s" % (fnm, n), ft))
            c = st.newcell(mk("agg", ty, 0, tuple(vals)))
        return mk("ref", mk("cell", c, ()), None)

    def arg_value(self, n, t):
        """A symbolic argument, a struct with its parts named."""
        if wire.is_struct(self.P, t):
            vals = tuple(self.arg_value(n + "." + m, ft) for m, ft in self.struct_fields(t))
            return vals[0] if len(vals) == 1 else mk("agg", t, 0, vals)
        return mk("sym", "arg:" + n, t)

    def arg_struct(self):
        fs = self.args()
        vals = tuple(self.arg_value(n, t) for n, t in fs)
        return vals[0] if len(vals) == 1 else mk("agg", self.argty, 0, vals)

    def struct(self, I, st, ty, combo, extra=()):
        vals = []
        for n, t in self.struct_fields(ty):
            if n in extra:
                vals.append(extra[n])
            else:
                vals.append(self.account(I, st, n, t, combo.get(n, 1)))
        return vals[0] if len(vals) == 1 else mk("agg", ty, 0, tuple(vals))

    def metas(self, I, st, ty, n="extra"):
        """&[AccountMeta] with one element"""
        P = self.P
        ety = P.types[P.types[ty]["e"]]["e"] if P.types[ty]["k"] == "ref" else None
        m = mk("agg", ety, 0, (mk("sym", "key:" + n, None), mk("sym", "signer:" + n, None), mk("sym", "writable:" + n, None)))
        c = st.newcell(mk("arr", (m,)))
        return mk("ref", mk("cell", c, (("i", 0, ety, "base"),)), 1)

    def info_list(self, I, st, ty, n="extra"):
        """&[(&AccountInfo, is_writable, is_signer)] with one element"""
        P = self.P
        ety = P.types[P.types[ty]["e"]]["e"]
        it = P.types[P.types[ety]["f"][0]]["e"]
        m = mk("agg", ety, 0, (self.info(I, st, n, it), mk("sym", "writable:" + n, None), mk("sym", "signer:" + n, None)))
        c = st.newcell(mk("arr", (m,)))
        return mk("ref", mk("cell", c, (("i", 0, ety, "base"),)), 1)

    # -- running
    def interp(self):
        I = SolInterp(self.P)
        I.ext_types = self.ctx.ext_types
        I.opaque_get = False
        wire.enable(I)
        cpi.enable(I)
        return I, State()

    def form(self, kind, combo, skip=()):
        k = (kind, tuple(sorted(combo.items())), skip)
        if k not in self.memo:
            f = getattr(self, "form_" + kind)
            self.memo[k] = f(combo, skip) if skip else f(combo)
        return self.memo[k]

    def one(self, I, l):
        """The only successful outcome."""
        if len(l) != 1:
            return ("?", "%d outcomes" % len(l))
        return l[0]

    def form_plain(self, combo):
        I, st = self.interp()
        fn = self.plain
        st.cells[-5] = self.struct(I, st, self.aty, combo)
        args = [mk("ref", mk("cell", -5, ()), None)]
        for k in range(2, fn.argc + 1):
            if fn.locals[k] == self.argty:
                args.append(self.arg_struct())
            else:
                args.append(self.metas(I, st, fn.locals[k]))
        return self.one(I, [self.read(I, s, v) for s, v in I.call(st, fn.id, args)])

    def read(self, I, st, ix, signed=None):
        if not (isinstance(ix, T) and ix.tag == "agg" and len(ix.a[2]) == 3):
            return ("?", str(ix)[:80])
        prog, accts, data = ix.a[2]
        l = cpi.list_of(I, st, accts)
        if l and l[0] == "opaque":
            return ("?", "accounts " + str(accts)[:80])
        ms = []
        for e in l:
            if e[0] == "1" and isinstance(e[1], T) and e[1].tag == "agg":
                k, s, w = e[1].a[2]
                ms.append((self.nm(k, prog), self.nm(s), self.nm(w)))
            else:
                ms.append(("?", str(e)[:60], ""))
        if isinstance(data, T) and data.tag == "pieces":
            ps = data.a[0]
        elif data is not None and data is getattr(self, "whole", None):
            return (self.hexid(prog), tuple(ms), ((None, "whole:instruction_data"),))
        else:
            ps = wire.pieces(I, st, data)
        if ps is None:
            return ("?", "data " + str(data)[:80])
        return (self.hexid(prog), tuple(ms), tuple((t, self.nm(v)) for t, v in ps))

    def hexid(self, v):
        return v.a[0] if isinstance(v, T) and v.tag == "bytes" else str(v)

    def nm(self, v, prog=None):
        if prog is not None and v is prog:
            return "program"
        if isinstance(v, T) and v.tag == "sym":
            return v.a[0]
        if isinstance(v, T) and v.tag == "agg" and len(v.a[2]) == 1 and v.a[1] == 1:
            return "some " + str(self.nm(v.a[2][0]))
        if isinstance(v, T) and v.tag == "agg" and not v.a[2]:
            return "none"
        if isinstance(v, T) and v.tag == "agg" and v.a[1] == 0 and v.a[2]:
            # a struct argument passed on whole
            l = [self.nm(x) for x in v.a[2]]
            fs = [n for n, _ in self.struct_fields(v.a[0])] if len(self.P.types[v.a[0]].get("v", ())) == 1 else []
            pre = {x.rsplit(".", 1)[0] for x in l if isinstance(x, str) and x.startswith("arg:") and "." in x}
            if len(pre) == 1 and [str(x).rsplit(".", 1)[-1] for x in l] == fs:
                return pre.pop()
        return v if isinstance(v, int) else str(v)[:80]

    def setters(self, I, st, owner, me, combo, skip=()):
        """Call every setter of a builder; [(state)]"""
        states = [st]
        for n, t in self.fields + self.args():
            if n in skip:
                continue
            fn = self.fn(owner, n)
            if fn is None:
                return ("?", "no setter %s::%s" % (owner, n))
            nxt = []
            for s in states:
                args = [me]
                for k in range(2, fn.argc + 1):
                    ty = fn.locals[k]
                    if (n, t) in self.args():
                        args.append(self.arg_value(n, ty))
                    elif k == 3:
                        args.append(mk("sym", "flag:" + n, None))
                    else:
                        args.append(self.account(I, s, n, ty, combo.get(n, 1)))
                nxt += [s2 for s2, _ in I.call(s, fn.id, args)]
            states = nxt
        return states

    def form_builder(self, combo, skip=()):
        I, st = self.interp()
        new, ins = self.fn(self.name + "Builder", "new"), self.fn(self.name + "Builder", "instruction")
        more = self.fn(self.name + "Builder", "add_remaining_account")
        if not (new and ins and more):
            return ("?", "no builder")
        me = mk("ref", mk("cell", -5, ()), None)
        out = []
        for s, v in I.call(st, new.id, []):
            s.cells[-5] = v
            l = self.setters(I, s, self.name + "Builder", me, combo, skip)
            if isinstance(l, tuple):
                return l
            for s2 in l:
                m = mk("agg", more.locals[2], 0, (mk("sym", "key:extra", None), mk("sym", "signer:extra", None), mk("sym", "writable:extra", None)))
                for s3, _ in I.call(s2, more.id, [me, m]):
                    out += [self.read(I, s4, v4) for s4, v4 in I.call(s3, ins.id, [me])]
        return self.one(I, out)

    def read_invoke(self, I, l):
        """The call made, from the successful outcomes of an invoking function."""
        out = []
        for s, v in l:
            calls = [e for e in s.effects() if e[0] == "invoke"]
            if isinstance(v, T) and v.tag == "agg" and v.a[1] == 1:
                continue
            if len(calls) != 1:
                return ("?", "%d calls" % len(calls))
            _, ix, data, infos, seeds, span = calls[0]
            if data is None:
                return ("?", "call of " + str(ix)[:80])
            f = self.read(I, s, mk("agg", ix.a[0], 0, (ix.a[2][0], ix.a[2][1], data)))
            if f[0] == "?":
                return f
            names = set()
            for e in infos:
                x = e[1] if isinstance(e, tuple) and len(e) > 1 and e[0] == "1" else None
                if isinstance(x, T) and x.tag == "agg":
                    names.add(self.nm(cpi.through(I, s, x.a[2][0])))
                else:
                    names.add("?" + str(e)[:60])
            out.append(f + (frozenset(names), seeds))
        return self.one(I, out)

    def form_cpi(self, combo):
        I, st = self.interp()
        o = self.name + "Cpi"
        new, go = self.fn(o, "new"), self.fn(o, "invoke_signed_with_remaining_accounts")
        if not (new and go):
            return ("?", "no " + o)
        args = []
        for k in range(1, new.argc + 1):
            ty = new.locals[k]
            t = self.P.types[ty]
            if t["k"] == "ref":
                args.append(self.info(I, st, "program", t["e"]))
            elif ty == self.argty:
                args.append(self.arg_struct())
            else:
                args.append(self.struct(I, st, ty, combo))
        out = []
        for s, v in I.call(st, new.id, args):
            s.cells[-5] = v
            me = mk("ref", mk("cell", -5, ()), None)
            seeds = mk("ref", mk("cell", s.newcell(mk("arr", (mk("sym", "seeds", None),))), ()), 1)
            out += I.call(s, go.id, [me, seeds, self.info_list(I, s, go.locals[3])])
        return self.read_invoke(I, out)

    def raw_cpi(self, fn, combo):
        """Accounts with ready-made instruction data."""
        I, st = self.interp()
        st.cells[-5] = self.struct(I, st, self.P.types[fn.locals[1]]["e"], combo)
        data = mk("agg", fn.locals[3], 0, (mk("wholebuf", "instruction_data"), mk("len", mk("wholebuf", "instruction_data"))))
        seeds = mk("ref", mk("cell", st.newcell(mk("arr", (mk("sym", "seeds", None),))), ()), 1)
        args = [mk("ref", mk("cell", -5, ()), None), self.info(I, st, "program", self.P.types[fn.locals[2]]["e"]), data, seeds]
        self.whole = data
        return self.read_invoke(I, I.call(st, fn.id, args))

    def form_cpibuilder(self, combo, skip=()):
        I, st = self.interp()
        o = self.name + "CpiBuilder"
        new, go, more = self.fn(o, "new"), self.fn(o, "invoke_signed"), self.fn(o, "add_remaining_account")
        if not (new and go and more):
            return ("?", "no " + o)
        it = self.P.types[new.locals[1]]["e"]
        out = []
        for s, v in I.call(st, new.id, [self.info(I, st, "program", it)]):
            s.cells[-5] = v
            me = mk("ref", mk("cell", -5, ()), None)
            l = self.setters(I, s, o, me, combo, skip)
            if isinstance(l, tuple):
                return l
            for s2 in l:
                for s3, _ in I.call(s2, more.id, [me, self.info(I, s2, "extra", it), mk("sym", "writable:extra", None), mk("sym", "signer:extra", None)]):
                    seeds = mk("ref", mk("cell", s3.newcell(mk("arr", (mk("sym", "seeds", None),))), ()), 1)
                    out += I.call(s3, go.id, [me, seeds])
        return self.read_invoke(I, out)


def clients(ctx, crate):
    P = ctx.prog(crate)
    rx = re.compile(r"^(%s::generated::instructions::\w+)::(\w+)::instruction_with_remaining_accounts$" % crate)
    out = []
    for p, l in sorted(P.by_path.items()):
        m = rx.match(p)
        if m:
            out.append(Client(ctx, crate, m.group(1), m.group(2), l[0]))
    return out


# ------------------------------------------------------------------ published descriptions
def repo_dir():
    return os.environ.get("NV_REPO", "/repo")


def load_json(name):
    with open(os.path.join(repo_dir(), "idls", name)) as f:
        return json.load(f)


def snake(s):
    return re.sub(r"(?<!^)([A-Z])", r"_\1", s).lower()


class Idl:
    """A shank/anchor style description."""

    def __init__(self, name):
        self.name = name
        self.d = load_json(name)
        self.types = {t["name"]: t["type"] for t in self.d.get("types", [])}

    def schema(self, t):
        if isinstance(t, str):
            return {"publicKey": ("array", "u8", 32)}.get(t, t)
        if "option" in t:
            return ("option", self.schema(t["option"]))
        if "vec" in t:
            e = self.schema(t["vec"])
            return "bytes" if e == "u8" else ("vec", e)
        if "array" in t:
            return ("array", self.schema(t["array"][0]), t["array"][1])
        if "defined" in t:
            n = t["defined"]
            if n not in self.types:
                return ("named", n)
            d = self.types[n]
            if d["kind"] == "struct":
                return ("struct", n, tuple((f["name"], self.schema(f["type"])) for f in d["fields"]))
            vs = []
            for k, v in enumerate(d["variants"]):
                fs = v.get("fields", [])
                vs.append((k, v["name"], tuple((f["name"], self.schema(f["type"])) if isinstance(f, dict) and "name" in f else (None, self.schema(f)) for f in fs)))
            return ("enum", n, tuple(vs))
        return ("?", str(t)[:60])

    def instructions(self):
        """name -> (tag, [(account, signer, writable, optional)], [(arg, schema)])"""
        out = {}
        for i in self.d["instructions"]:
            accts = []
            for a in i["accounts"]:
                n = norm(a["name"])
                s = ("flag:" + n) if a.get("isOptionalSigner") else int(a["isSigner"])
                accts.append((n, s, int(a["isMut"]), int(bool(a.get("isOptional")))))
            out[norm(i["name"])] = (i["discriminant"]["value"], accts, [(a["name"], self.schema(a["type"])) for a in i["args"]])
        return out

    def errors(self):
        return {e["code"]: e["name"] for e in self.d.get("errors", [])}


class Codama:
    """The description embedded in the program."""

    def __init__(self, name="asset-program.codama.json"):
        self.name = name
        self.d = load_json(name)["program"]
        self.types = {norm(t["name"]): t for t in self.d["definedTypes"]}

    def schema(self, t, depth=0):
        k = t["kind"]
        if k == "numberTypeNode":
            return t["format"]
        if k == "booleanTypeNode":
            return "bool"
        if k == "publicKeyTypeNode":
            return ("array", "u8", 32)
        if k == "definedTypeLinkNode":
            n = t["name"]
            if norm(n) not in self.types or depth > 6:
                return ("named", n)
            s = self.schema(self.types[norm(n)]["type"], depth + 1)
            return (s[0], n) + s[2:] if isinstance(s, tuple) and s[0] in ("struct", "enum") else s
        if k == "optionTypeNode":
            return ("option", self.schema(t["item"], depth))
        if k == "zeroableOptionTypeNode":
            return ("zoption", self.schema(t["item"], depth))
        if k == "structTypeNode":
            return ("struct", "", tuple((f["name"], self.schema(f["type"], depth)) for f in t["fields"]))
        if k == "enumTypeNode":
            vs, at = [], 0
            for v in t["variants"]:
                at = v.get("discriminator", at)
                if v["kind"] == "enumEmptyVariantTypeNode":
                    fs = ()
                elif v["kind"] == "enumTupleVariantTypeNode":
                    fs = tuple((None, self.schema(x, depth)) for x in v["tuple"]["items"])
                else:
                    fs = tuple((f["name"], self.schema(f["type"], depth)) for f in v["struct"]["fields"])
                vs.append((at, v["name"], fs))
                at += 1
            size = t.get("size", {}).get("format", "u8")
            return ("enum", "", tuple(vs)) if size == "u8" else ("enum", size, tuple(vs))
        if k == "sizePrefixTypeNode":
            return self.sized(t["type"], t["prefix"], depth)
        if k == "stringTypeNode":
            return ("rest", "string")
        if k == "bytesTypeNode":
            return ("rest", "bytes")
        if k == "fixedSizeTypeNode":
            return ("fixed", self.schema(t["type"], depth), t["size"])
        if k == "arrayTypeNode":
            e, c = self.schema(t["item"], depth), t["count"]
            if c["kind"] == "fixedCountNode":
                return ("array", e, c["value"])
            if c["kind"] == "prefixedCountNode":
                return "bytes" if e == "u8" and c["prefix"].get("format") == "u32" else ("vec", e) if c["prefix"].get("format") == "u32" else ("vec" + str(c["prefix"].get("format")), e)
            return ("rest", e)
        return ("?", k)

    def sized(self, t, prefix, depth):
        s = self.schema(t, depth)
        f = prefix.get("format")
        if isinstance(s, tuple) and s[0] == "rest" and f == "u32":
            return s[1]
        return ("sized", f, s)

    def instructions(self):
        out = {}
        for i in self.d["instructions"]:
            accts = []
            for a in i["accounts"]:
                n = norm(a["name"])
                s = ("flag:" + n) if a["isSigner"] == "either" else int(a["isSigner"])
                accts.append((n, s, int(a["isWritable"]), int(bool(a["isOptional"]))))
            tag, args = None, []
            for a in i["arguments"]:
                if a["name"] == "discriminator":
                    tag = a["defaultValue"]["number"]
                else:
                    args.append((a["name"], self.schema(a["type"])))
            out[norm(i["name"])] = (tag, accts, args)
        return out

    def defaults(self):
        """instruction -> {argument: default number}"""
        out = {}
        for i in self.d["instructions"]:
            for a in i["arguments"]:
                v = a.get("defaultValue")
                if a["name"] == "discriminator" or not v or a.get("defaultValueStrategy") == "omitted":
                    continue
                x = None
                if v["kind"] == "booleanValueNode":
                    x = int(v["boolean"])
                elif v["kind"] == "enumValueNode":
                    x = v["variant"]
                elif v["kind"] == "numberValueNode":
                    x = v["number"]
                elif v["kind"] == "noneValueNode":
                    x = "none"
                else:
                    continue
                out.setdefault(norm(i["name"]), {})[norm(a["name"])] = x
        return out

    def errors(self):
        return {e["code"]: e["name"] for e in self.d.get("errors", [])}


norm = wire.norm


# ------------------------------------------------------------------ programs
def contexts(ctx, crate, prefix):
    """Account lists the program's own decoding makes: name -> [(account, index, optional)], sentinel"""
    P = ctx.prog(crate)
    rx = re.compile(r"^%s::accounts::(\w+?)(Accounts)?(::<[^>]*>)?::context$" % re.escape(prefix))
    out = {}
    for p, l in sorted(P.by_path.items()):
        m = rx.match(p)
        if not m:
            continue
        fn = l[0]

        def args(I, st, fn=fn):
            st.cells[-10] = mk("sym", "accounts", P.types[fn.locals[1]]["e"])
            return [mk("ref", mk("cell", -10, ()), None)]
        run = FnRun(ctx, crate, fn, args)
        out[norm(m.group(1))] = read_context(P, m.group(1), run)
    return out


def read_context(P, name, run):
    oks = [p for p in run.parts if isinstance(p.value, T) and p.value.tag == "agg" and p.value.a[1] == 0]
    if len(oks) != 1:
        return ("?", "%d ways to read the accounts" % len(oks))
    v = oks[0].value
    rx = re.compile(r"::accounts::%s(Accounts)?$" % name)
    found = None
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x.tag == "agg":
            if rx.search(P.types[x.a[0]].get("def", "")):
                found = x
                break
            todo += [y for y in x.a[2] if isinstance(y, T)]
    if found is None:
        return ("?", str(v)[:80])
    out = []
    for (n, t), x in zip(P.types[found.a[0]]["v"][0]["f"], found.a[2]):
        opt = P.types[t]["s"].startswith("core::option::Option<")
        sentinel = None
        if opt:
            if not (isinstance(x, T) and x.tag == "ite"):
                return ("?", "%s: %s" % (n, str(x)[:80]))
            lit, a, b = x.a
            if is_opt(a, True):
                lit, a, b = neg(lit), b, a
            if not (is_opt(a, False) and is_opt(b, True)):
                return ("?", "%s: %s" % (n, str(x)[:80]))
            x = b.a[2][0]
            sentinel = tuple(consts_in(lit))
        if not (isinstance(x, T) and x.tag == "ref" and x.a[0].tag == "cell" and x.a[0].a[0] == -10 and len(x.a[0].a[1]) == 1):
            return ("?", "%s: %s" % (n, str(x)[:80]))
        out.append((norm(n), x.a[0].a[1][0][1], sentinel if opt else None))
    return tuple(out)


def consts_in(t, out=None):
    """32-byte constants of a literal."""
    out = [] if out is None else out
    if isinstance(t, T):
        if t.tag == "bytes" and len(t.a[0]) == 64:
            out.append(t.a[0])
        for x in t.a:
            if isinstance(x, (T, tuple)):
                consts_in(x, out)
    elif isinstance(t, tuple):
        for x in t:
            consts_in(x, out)
    return out


# ------------------------------------------------------------------ C22
def canon(name):
    return norm(name.split(":", 1)[-1]) if isinstance(name, str) else name


def client_tables(c):
    """(program, tag, [(account, signer, writable, optional)], [(arg, schema)]) of the plain builder, or an explanation."""
    combos = c.combos()
    full = c.form("plain", combos[0])
    if full[0] == "?":
        return full
    opt = set(c.optional())
    accts = []
    for k, s, w in full[1][:-1]:
        if not (isinstance(k, str) and k.startswith("key:")):
            return ("?", "account %s" % (k,))
        n = k[4:]
        accts.append((norm(n), ("flag:" + norm(s[5:])) if isinstance(s, str) and s.startswith("flag:") else s, w, int(n in opt)))
    if full[1][-1] != ("key:extra", "signer:extra", "writable:extra"):
        return ("?", "additional accounts become %s" % (full[1][-1],))
    data = full[2]
    if not data or data[0][0] is not None:
        return ("?", "data %s" % (data,))
    cod = wire.Codec(c.ctx, c.crate, "ser")
    args = []
    for t, v in data[1:]:
        if t is None:
            return ("?", "constant %s in the data" % (v,))
        s = cod.schema(t)
        b = wire.broken(s)
        if b:
            return ("?", b)
        if not (isinstance(v, str) and v.startswith("arg:")):
            return ("?", "argument %s" % (v,))
        args.append((v[4:], s))
    return (full[0], data[0][1], accts, args)


def c22_crate(ctx, R, crate, idls, decode, ctxs, idhex):
    """Clients of one crate against the descriptions and the program's decoding."""
    cs = clients(ctx, crate)
    R.ob("clients", len(cs) > 0, "no generated clients found in %s" % crate)
    dec = {}
    for tag, nm, fs in decode[2]:
        dec.setdefault(norm(nm), []).append((tag, fs))
    seen = set()
    for c in cs:
        n = norm(c.name)
        seen.add(n)
        where = "%s" % c.plain.span if hasattr(c.plain, "span") else crate
        r = lambda rule, ok, d="": R.ob("%s/%s" % (c.name, rule), ok, d, where)
        tab = client_tables(c)
        if tab[0] == "?":
            r("plain", False, "%s::%s: %s" % (crate, c.name, tab[1]))
            continue
        prog, tag, accts, args = tab
        r("program", prog == idhex, "addressed to %s" % prog)
        # the program's decoding
        d = dec.get(n, [])
        r("decoded", len(d) == 1, "%s is read %d ways" % (c.name, len(d)))
        if len(d) == 1:
            r("number", d[0][0] == tag, "client sends %s, program reads %s" % (tag, d[0][0]))
            df = wire.differ_fields(leaf(args), wire.flat(d[0][1]), c.name)
            r("arguments", df is None, "client/program: %s" % df)
        cx = ctxs.get(n)
        if cx is None or cx[0] == "?":
            r("accounts", False, "program account list: %s" % (cx,))
        else:
            want = [(a, k) for k, (a, _, _, _) in enumerate(accts)]
            r("accounts", sorted((a, i) for a, i, _ in cx) == sorted(want), "client %s, program %s" % (want, [x[:2] for x in cx]))
            o1 = {a for a, _, _, o in accts if o}
            o2 = {a for a, _, s in cx if s is not None}
            r("optional", o1 == o2, "optional in the client %s, in the program %s" % (sorted(o1), sorted(o2)))
            bad = [a for a, _, s in cx if s is not None and s != (prog,)]
            r("absent", not bad, "absence of %s is recognised by %s" % (bad, [s for _, _, s in cx]))
        # the descriptions
        for idl in idls:
            e = idl.instructions().get(n)
            if e is None:
                r(idl.name, False, "%s is not described in %s" % (c.name, idl.name))
                continue
            r("%s/number" % idl.name, e[0] == tag, "client sends %s, described as %s" % (tag, e[0]))
            df = None if len(e[1]) == len(accts) else "%d / %d accounts" % (len(accts), len(e[1]))
            for x, y in zip(accts, e[1]):
                if df is None and x != y:
                    df = "%s / %s" % (x, y)
            r("%s/accounts" % idl.name, df is None, "client/description (name, signer, writable, optional): %s" % df)
            df = wire.differ_fields(leaf(args), wire.flat(e[2]), c.name)
            r("%s/arguments" % idl.name, df is None, "client/description: %s" % df)
        c22_defaults(r, c, args, accts, d[0][1] if len(d) == 1 else ())
        raw = [l[0] for p, l in c.P.by_path.items() if re.search(r"::%sCpiAccounts(::<[^>]*>|<[^>]*>>)?::invoke_signed$" % c.name, p)]
        for fn in raw:
            for combo in c.combos():
                absent = {norm(k) for k, v in combo.items() if not v}
                f = c.raw_cpi(fn, combo)
                if f[0] == "?":
                    r("raw/%s" % (",".join(sorted(absent)) or "all"), False, f[1])
                    continue
                exp = [("program", 0, 0) if a in absent else (a, canon_flag(s), w) for a, s, w, _ in accts]
                got = [(canon(k), canon_flag(s), w) for k, s, w in f[1]]
                r("raw/accounts", got == exp and f[0] == prog, "%s" % first_diff(got, exp) if got != exp else "")
                r("raw/data", [v for _, v in f[2]] == ["whole:instruction_data"], "data %s" % (f[2],))
                need = {"key:program"} | {"key:" + k for k, _ in c.fields if combo.get(k, 1)}
                r("raw/infos", f[3] == need, "passes %s" % sorted(f[3] ^ need))
                r("raw/seeds", "seeds" in str(f[4]) and len(f[4]) == 1, "signer seeds become %s" % (str(f[4])[:80],))
        # all ways of building agree, for every combination of optional accounts
        for combo in c.combos():
            absent = {norm(k) for k, v in combo.items() if not v}
            exp = [("program", 0, 0) if a in absent else (a, canon_flag(s), w) for a, s, w, _ in accts]
            exp.append(("extra", "signer:extra", "writable:extra"))
            tagx = ",".join(sorted(absent)) or "all"
            for kind in ("plain", "builder", "cpi", "cpibuilder"):
                f = c.form(kind, combo)
                if f[0] == "?":
                    r("%s/%s" % (kind, tagx), False, "%s: %s" % (kind, f[1]))
                    continue
                got = [(canon(k), canon_flag(s), w) for k, s, w in f[1]]
                r("%s/accounts" % kind, got == exp and f[0] == prog, "without %s: %s, expected %s" % (tagx, first_diff(got, exp), "") if got != exp else "")
                want = [(None, tag)] + [a for a, _ in args]
                gotd = [(None, f[2][0][1])] + [arg_name(v) for _, v in f[2][1:]] if f[2] and f[2][0][0] is None else None
                tys = [t for t, _ in f[2][1:]] == [t for t, _ in c.form("plain", combos_first(c))[2][1:]]
                r("%s/data" % kind, gotd == want and tys, "data %s, expected %s" % (gotd, want))
                if kind.startswith("cpi"):
                    need = {"key:program"} | {"key:" + k for k, _ in c.fields if combo.get(k, 1)} | {"key:extra"}
                    r("%s/infos" % kind, f[3] == need, "passes %s" % sorted(f[3] ^ need))
                    sd = f[4]
                    r("%s/seeds" % kind, "seeds" in str(sd) and len(sd) == 1, "signer seeds become %s" % (str(sd)[:80],))
    r = R.ob
    for n, l in sorted(dec.items()):
        r("complete/%s" % n, n in seen, "%s has no client for the program's instruction %s" % (crate, n))
    for idl in idls:
        for n in sorted(idl.instructions()):
            r("complete/%s/%s" % (idl.name, n), n in dec, "described instruction %s is not decoded" % n)


B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
KNOWN = {
    "systemprogram": "11111111111111111111111111111111",
    "splTokenProgram": "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA",
    "splAtaProgram": "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL",
    "tokenMetadataProgram": "metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s",
    "sysvarInstructions": "Sysvar1nstructions1111111111111111111111111",
    "niftyAssetProgram": "AssetGtQBTSgm5s91d1RAQod5JmaZiJDxqsgtqrZud73",
}


def b58(s):
    n = 0
    for ch in s:
        n = n * 58 + B58.index(ch)
    return n.to_bytes(32, "big").hex()


def c22_defaults(r, c, args, accts, fields):
    """What a builder fills in for what is not set."""
    full = {n: 1 for n in c.optional()}
    none = {n: 0 for n in c.optional()}
    known = {norm(k): b58(v) for k, v in KNOWN.items()}
    for kind in ("builder", "cpibuilder"):
        # optional accounts that are never set are absent
        if c.optional():
            f = c.form(kind, full, tuple(c.optional()))
            g = c.form(kind, none)
            r("%s/unset-accounts" % kind, f[0] != "?" and f[1] == g[1], "accounts never set: %s" % (f[1],))
        # required accounts with a default
        if kind == "builder":
            for k, (n, t) in enumerate(c.fields):
                if norm(n) not in known or c.kind(t)[0]:
                    continue
                f = c.form(kind, full, (n,))
                if f == ("?", "0 outcomes"):
                    continue        # refused: it must be set
                r("default/%s" % n, f[0] != "?" and f[1][k][0] == show_key(known[norm(n)], f[0]), "%s defaults to %s" % (n, f[1][k][0] if f[0] != "?" else f[1]))
        # arguments
        want = Codama().defaults().get(norm(c.name), {}) if c.crate != "nifty_bridge" else {}
        for k, (n, t) in enumerate(c.args()):
            opt = c.P.types[t]["s"].startswith("core::option::Option<")
            f = c.form(kind, full, (n,))
            if f == ("?", "0 outcomes"):
                r("%s/unset/%s" % (kind, n), not opt and norm(n) not in want, "%s may be left out, but the builder refuses" % n)
                continue
            if f[0] == "?":
                r("%s/unset/%s" % (kind, n), False, f[1])
                continue
            v = f[2][1 + k][1] if len(f[2]) > 1 + k else None
            if f[2][1 + k:1 + k + 1] and f[2][1 + k][0] is None:
                v = f[2][1 + k][1]
            if norm(n) in want:
                exp = want[norm(n)]
                if isinstance(exp, str) and exp != "none":
                    cod = wire.Codec(c.ctx, c.crate, "ser").schema(t)
                    exp = [tag for tag, nm, _ in cod[2] if norm(nm) == norm(exp)] if cod[0] == "enum" else [None]
                    exp = exp[0] if exp else None
                r("%s/default/%s" % (kind, n), v == exp, "%s defaults to %s, described as %s" % (n, v, want[norm(n)]))
            elif opt:
                r("%s/default/%s" % (kind, n), v in ("none", 0), "%s never set becomes %s" % (n, v))
            else:
                r("%s/default/%s" % (kind, n), True)


def show_key(hexs, prog):
    return "program" if hexs == prog else str(mk("bytes", hexs))[:80]


def leaf(args):
    return [(n.rsplit(".", 1)[-1], s) for n, s in wire.flat(args)]


def combos_first(c):
    return c.combos()[0]


def canon_flag(s):
    return "flag:" + norm(s[5:]) if isinstance(s, str) and s.startswith("flag:") else s


def arg_name(v):
    if isinstance(v, str) and v.startswith("some "):
        v = v[5:]
    return v[4:] if isinstance(v, str) and v.startswith("arg:") else v


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return "%s instead of %s" % (x, y)
    return "%d instead of %d accounts" % (len(a), len(b))


def ty_of(P, s):
    for i, x in enumerate(P.types):
        if x["s"] == s:
            return i
    return None


def decoded(ctx, crate, path):
    cod = wire.Codec(ctx, crate, "de")
    t = ty_of(cod.P, path)
    return cod.schema(t) if t is not None else ("none", path)


def C22_asset(ctx, R):
    dec = decoded(ctx, "asset_program", "asset_program::instruction::Instruction")
    R.ob("decoder", not wire.broken(dec), "%s" % wire.broken(dec))
    cx = contexts(ctx, "asset_program", "asset_program::instruction")
    c22_crate(ctx, R, "nifty_asset", [Idl("asset_program.json"), Codama()], dec, cx, ctx.id_hex)


def C22_interface(ctx, R):
    dec = decoded(ctx, "nifty_asset_interface", "nifty_asset_interface::interface::Interface")
    R.ob("decoder", not wire.broken(dec), "%s" % wire.broken(dec))
    prog = decoded(ctx, "asset_program", "asset_program::instruction::Instruction")
    d = wire.differ(dec, prog, "interface/program")
    R.ob("same-as-program", d is None, d)
    ser = wire.Codec(ctx, "nifty_asset_interface", "ser")
    s = ser.schema(ty_of(ser.P, "nifty_asset_interface::interface::Interface"))
    d = wire.broken(s) or wire.differ(s, dec, "encoder/decoder")
    R.ob("roundtrip", d is None, d)
    cx = contexts(ctx, "nifty_asset_interface", "nifty_asset_interface::interface")
    pcx = contexts(ctx, "asset_program", "asset_program::instruction")
    R.ob("same-accounts", cx == pcx, "%s" % sorted(set(cx.items()) ^ set(pcx.items()))[:2])
    c22_crate(ctx, R, "nifty_asset_interface", [Idl("nifty_asset_interface.json")], dec, cx, ctx.id_hex)


def C22_bridge(ctx, R):
    dec = decoded(ctx, "bridge_program", "bridge_program::instruction::Instruction")
    R.ob("decoder", not wire.broken(dec), "%s" % wire.broken(dec))
    cx = contexts(ctx, "bridge_program", "bridge_program::instruction")
    c22_crate(ctx, R, "nifty_bridge", [Idl("bridge_program.json")], dec, cx, program_id(ctx, "bridge_program"))


def program_id(ctx, crate):
    P = ctx.prog(crate)
    for path, c in P.consts:
        if path == crate + "::ID":
            return c["a"]["m"]
    return None


ONCE = {"C22": {"asset": C22_asset, "interface": C22_interface, "bridge": C22_bridge}}
PER = {}
_TAB = ("Tables extracted from the type-checked program (evaluated constants, type layouts, and functions interpreted abstractly over "
        "MIR) are compared across sibling implementations: program, Rust clients, interface library, published descriptions. ")
EXPLAIN = {
    "C22": _TAB + "Every public form of every client builder (plain, builder, cross-program, cross-program builder) is interpreted with "
           "symbolic accounts and arguments; the account list, flags and bytes it produces are compared with the decoder of the program, "
           "with the privileges the handler exercises on its accounts, and with the published description."}
ASSUME = {
    "C22": ["Clone of a client argument yields an equal value",
            "kaigan collections serialise as documented (RemainderVec: elements to the end; U8PrefixString: one length byte)"]}


# ------------------------------------------------------------------ C22: privileges the handlers need
def acct_of(x):
    """Index of the account an effect names."""
    if isinstance(x, int):
        return x
    if isinstance(x, T):
        if x.tag in ("acct", "data", "lam", "dlen", "own", "key"):
            return x.a[0] if isinstance(x.a[0], int) else None
        if x.tag == "ref" and x.a[0].tag == "mem" and x.a[0].a[0] is ACCOUNTS and isinstance(x.a[0].a[1], int):
            return x.a[0].a[1] // 8
    return None


def privileges(run, n):
    """Accounts some successful path needs as signer / as writable: {index: why}"""
    sg, wr = {}, {}
    for p in run.parts:
        q = p.given(ne(D(0, F_STD), 3))
        if q is None:
            continue
        for i in range(n):
            if i not in sg and q.must(signer(i)):
                sg[i] = "a path requires its signature"
        for i, l in q.touched().items():
            wr.setdefault(i, "written at offset %s" % (l[0][2],))
        for e in q.effects("sys_transfer", "create_account"):
            for k, what in ((1, "pays"), (2, "is funded")):
                i = acct_of(e[k])
                if i is not None:
                    wr.setdefault(i, what)
                    if k == 1 or e[0] == "create_account":
                        sg.setdefault(i, what)
        for e in q.effects("realloc", "assign"):
            i = acct_of(e[1])
            if i is not None:
                wr.setdefault(i, e[0])
    return sg, wr


def C22_priv(ctx, instr, run, R):
    cx = contexts(ctx, "asset_program", "asset_program::instruction").get(norm(instr))
    c = [x for x in clients(ctx, "nifty_asset") if norm(x.name) == norm(instr)]
    if not cx or cx[0] == "?" or len(c) != 1:
        R.ob("tables", False, "%s: %s" % (instr, cx))
        return
    tab = client_tables(c[0])
    if tab[0] == "?":
        R.ob("tables", False, tab[1])
        return
    accts = tab[2]
    ix = {i: a for a, i, _ in cx}
    sg, wr = privileges(run, len(cx))
    by = {a: (s, w) for a, s, w, _ in accts}
    R.ob("paths", len(run.parts) > 0, "no successful path")
    for i, why in sorted(sg.items()):
        a = ix.get(i)
        R.ob("signer/%s" % a, a in by and by[a][0] != 0, "the handler needs %s (account %d) to sign: %s; the client never marks it" % (a, i, why))
    for i, why in sorted(wr.items()):
        a = ix.get(i)
        R.ob("writable/%s" % a, a in by and by[a][1] == 1, "the handler changes %s (account %d): %s; the client marks it read-only" % (a, i, why))
    fn = [f for f in ctx.prog("asset_program").by_path.get("asset_program::entrypoint::entrypoint", [])]
    room = [int(m.group(1)) for f in fn for t in f.locals for m in [re.match(r"^\[.*AccountInfo>?; (\d+)\]$", ctx.prog("asset_program").types[t]["s"])] if m]
    R.ob("room", bool(room) and max(room) >= len(cx), "the entrypoint reads %s accounts, %s has %d" % (room, instr, len(cx)))


def C22_proxy(ctx, R):
    """The proxy's own instruction against its description."""
    dec = decoded(ctx, "proxy_program", "proxy_program::instruction::Instruction")
    R.ob("decoder", not wire.broken(dec), "%s" % wire.broken(dec))
    cx = contexts(ctx, "proxy_program", "proxy_program::instruction")
    idl = Idl("proxy_program.json")
    ins = idl.instructions()
    tags = {norm(nm): (tag, fs) for tag, nm, fs in dec[2]} if dec[0] == "enum" else {}
    for n, (tag, accts, args) in sorted(ins.items()):
        R.ob("%s/number" % n, n in tags and tags[n][0] == tag, "program reads %s, described as %s" % (tags.get(n, ("?",))[0], tag))
        if n in tags:
            df = wire.differ_fields(wire.flat(args), wire.flat(tags[n][1]), n)
            R.ob("%s/arguments" % n, df is None, "description/program: %s" % df)
        c = cx.get(n)
        if not c or c[0] == "?":
            R.ob("%s/accounts" % n, False, "%s" % (c,))
            continue
        R.ob("%s/accounts" % n, [(a, k) for k, (a, _, _, _) in enumerate(accts)] == sorted([(a, i) for a, i, _ in c], key=lambda x: x[1]), "description %s, program %s" % ([a[0] for a in accts], c))
        R.ob("%s/optional" % n, {a for a, _, _, o in accts if o} == {a for a, _, s in c if s is not None}, "optional accounts differ")
    R.ob("complete", set(tags) == set(ins), "%s" % sorted(set(tags) ^ set(ins)))


ALL18 = "Close Burn Create Approve Allocate Lock Revoke Transfer Unlock Unverify Update Verify Write Group Ungroup Handover Remove Resize".split()
ONCE["C22"]["proxy"] = C22_proxy
PER["C22"] = (C22_priv, ALL18)


# ------------------------------------------------------------------ tabulation of conversions
def tab(ctx, crate, fn, x):
    """The values a function returns for one concrete argument."""
    run = FnRun(ctx, crate, fn, [x])
    return [p.value for p in run.parts] if not run.I.unknown else [None]


def enum_def(ctx, crate, path):
    """{variant: number} by the compiler's discriminants, or {}"""
    return enum_numbers(ctx, crate, path)


def one_fn(ctx, crate, rx, R, rule):
    P = ctx.prog(crate)
    fs = [f for l in P.by_path.values() for f in l if re.search(rx, f.name)]
    R.ob(rule + ":anchor", len(fs) == 1, "%d functions match %s in %s" % (len(fs), rx, crate))
    return fs[0] if len(fs) == 1 else None


def agg_of(v):
    return v if isinstance(v, T) and v.tag == "agg" else None


def variant_name(P, v):
    v = agg_of(v)
    if v is None:
        return None
    ty = P.types[v.a[0]]
    return ty["v"][v.a[1]]["n"] if "v" in ty else None


def num_table(ctx, crate, fn, probe, R, rule, names, kind="option"):
    """{number: variant name or None} of a checked conversion from numbers."""
    back = {n: k for k, n in names.items()}
    out = {}
    P = ctx.prog(crate)
    for x in probe:
        vs = tab(ctx, crate, fn, x)
        got = set()
        for v in vs:
            n = variant_name(P, v)
            if n in ("Some", "Ok"):
                got.add(back.get(as_int(v.a[2][0]) if len(v.a[2]) == 1 else None, "?"))
            elif n in ("None", "Err"):
                got.add(None)
            else:
                got.add("?%s" % (v,))
        out[x] = got.pop() if len(got) == 1 else "?"
    R.ob(rule + ":decided", all(not str(v).startswith("?") for v in out.values()),
         "%s" % [k for k, v in out.items() if str(v).startswith("?")][:3], fn.span if hasattr(fn, "span") else None)
    return out


def probes(names, bits=64):
    top = max(names.values(), default=0)
    s = set(range(0, top + 4)) | {255, 6000, (1 << 31) - 1} | ({256, (1 << 32), (1 << 32) + 1} if bits > 32 else set())
    return sorted(x for x in s if x < (1 << bits))


def c23(ctx, R, program, enum, client, cenum, idls):
    P = ctx.prog(program)
    codes = enum_def(ctx, program, enum)
    R.ob("errors", len(codes) >= 2, "%s has %d variants" % (enum, len(codes)))
    R.ob("distinct", len(set(codes.values())) == len(codes), "two errors share a code")
    short = enum.rsplit("::", 1)[1]
    f = one_fn(ctx, program, r"<impl core::convert::From<%s> for solana_program::program_error::ProgramError>::from$" % re.escape(enum), R, "returned-code")
    ret = {}
    if f:
        for n, x in codes.items():
            vs = tab(ctx, program, f, x)
            v = agg_of(vs[0]) if len(vs) == 1 else None
            ok = v is not None and variant_name(P, v) == "Custom"
            ret[n] = as_int(v.a[2][0]) if ok else None
            R.ob("returned-code", ok and ret[n] is not None, "%s is returned as %s" % (n, vs[:2]), f.span)
        R.ob("returned-distinct", len(set(ret.values())) == len(ret), "two errors are returned as one code: %s" % sorted(
            n for n, c in ret.items() if list(ret.values()).count(c) > 1)[:4], f.span)
    else:
        return
    want = {c: n for n, c in ret.items()}
    sides = [(program, enum, codes)]
    if client:
        ccodes = enum_def(ctx, client, cenum)
        R.ob("client-errors", bool(ccodes), "%s not found" % cenum)
        sides.append((client, cenum, ccodes))
    for crate, path, names in sides:
        for meth in ("from_u64", "from_i64"):
            g = one_fn(ctx, crate, r"_FOR_%s::<impl num_traits::(cast::)?FromPrimitive for %s>::%s$" % (path.rsplit("::", 1)[1], re.escape(path), meth), R,
                       "%s:%s" % (crate, meth))
            if not g:
                continue
            t = num_table(ctx, crate, g, probes(ret), R, "%s:%s" % (crate, meth), names)
            for x, n in t.items():
                R.ob("%s:%s" % (crate, meth), n == want.get(x), "code %d means %s in the program and decodes to %s in %s" % (x, want.get(x), n, path), g.span)
    for d in idls:
        e = {c: canon(n) for c, n in d.errors().items()}
        w = {c: canon(n) for c, n in want.items()}
        for c in sorted(set(e) | set(w)):
            R.ob("description:" + d.name, e.get(c) == w.get(c), "code %d is %s in the program and %s in %s" % (c, w.get(c), e.get(c), d.name), "idls/" + d.name)


def C23_asset(ctx, R):
    c23(ctx, R, "asset_program", "asset_program::error::AssetError", "nifty_asset", "nifty_asset::generated::errors::asset::AssetError",
        [Idl("asset_program.json"), Codama()])


def C23_bridge(ctx, R):
    c23(ctx, R, "bridge_program", "bridge_program::error::BridgeError", "nifty_bridge", "nifty_bridge::generated::errors::bridge::BridgeError",
        [Idl("bridge_program.json")])


def C23_proxy(ctx, R):
    c23(ctx, R, "proxy_program", "proxy_program::error::ProxyError", None, None, [Idl("proxy_program.json")])


ONCE["C23"] = {"asset": C23_asset, "bridge": C23_bridge, "proxy": C23_proxy}
EXPLAIN["C23"] = _TAB + ("Error numbers come from the conversion into ProgramError applied to every variant; FromPrimitive of the program and "
                         "of the clients is tabulated over every code and codes outside the range.")
ASSUME["C23"] = []


# ------------------------------------------------------------------ C24: layouts and numbers
def layout(P, ty, depth=0):
    """Byte format of an in-memory (plain old data) type, by the compiler's layout."""
    t = P.types[ty]
    s = t["s"]
    if depth > 8:
        return ("?", s)
    if s in wire.PRIMS:
        return s
    if t["k"] in ("ref", "ptr"):
        e = P.types[t["e"]]
        if e["k"] == "slice":
            return ("rest", layout(P, e["e"], depth + 1))
        return layout(P, t["e"], depth + 1)
    if t["k"] == "array":
        return ("array", layout(P, t["e"], depth + 1), t["n"])
    if t["k"] != "adt":
        return ("?", s)
    m = re.match(r"^podded::.*::U8PrefixStr(Mut)?\b", s)
    if m:
        return ("sized", "u8", ("rest", "string"))
    if s.startswith("podded::pod::pod_bool::PodBool"):
        return "bool"
    if s.startswith("alloc::vec::Vec<"):
        return ("rest", layout(P, t["args"][0], depth + 1))
    if t.get("ak") == "enum":
        if any(v["f"] for v in t["v"]):
            return ("?", s)
        return ("enum", wire.short(s), tuple((int(v["d"]), v["n"], ()) for v in t["v"])) if t["size"] == 1 else ("?", "%s takes %d bytes" % (s, t["size"]))
    v = t["v"][0]
    fs = [(n, f, o) for (n, f), o in zip(v["f"], v["o"])]
    fs = [x for x in fs if P.types[x[1]].get("size") != 0]
    if len(fs) == 1:
        one = layout(P, fs[0][1], depth + 1)
        return one if fs[0][0].isdigit() or s.startswith("podded::") else ("struct", wire.short(s), ((fs[0][0], one),))
    fs.sort(key=lambda x: x[2])
    at = 0
    for n, f, o in fs:
        if o != at:
            return ("?", "%s: field %s at %d, not %d" % (s, n, o, at))
        at += P.types[f]["size"]
    if at != t["size"]:
        return ("?", "%s is padded" % s)
    return ("struct", wire.short(s), tuple((n, layout(P, f, depth + 1)) for n, f, o in fs))


def placed(P, fields, decl, base, ends):
    """Order the fields a reader shows by position; check they are where their formats put them.
    -> ([(name, schema)], problem)"""
    left = dict(fields)
    pos, out = base, []
    while left:
        hit = None
        for n, s in left.items():
            if s[0] != "ref" or n not in decl:
                continue
            _, reg, off, ln = s
            f = layout(P, decl[n])
            if reg is not BUF:
                return out, "%s does not lie in the extension" % n
            if eq(off, add(pos, 1)) == 1 and isinstance(ln, T) and ln.tag == "ld" and ln.a[0] is BUF and eq(ln.a[1], pos) == 1 and ln.a[2] == 1:
                hit = (n, ("sized", "u8", f if isinstance(f, tuple) and f[0] == "rest" else f[2] if isinstance(f, tuple) and f[0] == "sized" else f), add(off, ln))
            elif eq(off, pos) == 1 and isinstance(f, tuple) and f[0] == "rest":
                e = f[1]
                k = P.size(P.types[P.types[decl[n]]["e"]]["e"]) if P.types[decl[n]]["k"] == "ref" else 1
                if eq(add(off, ln), ends) == 1 or k > 1 and eq(ln, mulc(mk("div", sub(ends, off), k), k)) == 1:
                    hit = (n, f, None)
                del e
            elif eq(off, pos) == 1 and isinstance(ln, int):
                size = P.size(P.types[decl[n]]["e"]) if P.types[decl[n]]["k"] == "ref" else P.size(decl[n])
                if size == ln:
                    hit = (n, f, add(off, ln))
            if hit:
                break
        if not hit:
            return out, "no field starts at %s (left: %s)" % (pos, sorted(left))
        n, f, pos = hit
        out.append((n, f))
        del left[n]
    return out, None


def named_fields(P, shape, ty):
    """{field: shape} and {field: declared type} of a view."""
    t = P.types[ty]
    v = t["v"][0]
    decl = {n: f for n, f in v["f"]}
    if shape[0] == "agg" and len(v["f"]) > 1:
        return dict(shape[2:]), decl
    if len(v["f"]) == 1:
        return {v["f"][0][0]: shape}, decl
    return {}, decl


def view_schema(ctx, nm):
    """What the program reads in an extension of one type: schema and a problem or None."""
    f = reader_fn(ctx, nm)
    if f is None:
        return None, "no reader of %s" % nm
    r = Reader(ctx, "nifty_asset_types", f)
    P = ctx.prog("nifty_asset_types")
    if r.problems:
        return None, r.problems[0]
    if r.is_list:
        et = elem_ty(r.run.I, r.ty)
        outs, problem = set(), None
        for fs, shape, step in r.items:
            fields, decl = named_fields(P, shape, et)
            got, pb = placed(P, fields, decl, CUR, N)
            problem = problem or pb
            outs.add(tuple(got))
        if len(outs) != 1 or problem:
            return None, problem or "%d element formats" % len(outs)
        lf = P.types[r.ty]["v"][0]["f"][0][0] if P.types[r.ty]["s"].startswith("nifty") else "values"
        return ("struct", nm, ((lf, ("rest", ("struct", "", outs.pop()))),)), None
    full = [s for fs, s in r.flat if not (s[0] == "agg" and any(x[1][0] == "const" for x in s[2:]))]
    if len(set(full)) != 1:
        return None, "%d formats" % len(set(full))
    rt = r.ty
    fields, decl = named_fields(P, full[0], rt)
    got, problem = placed(P, fields, decl, 0, N)
    if problem:
        return None, problem
    # the shorter forms keep the same places for what they still carry
    for fs, s in r.flat:
        if s is full[0] or s[0] != "agg":
            continue
        f2 = {n: x for n, x in s[2:] if x[0] != "const"}
        g2, pb = placed(P, f2, decl, 0, N)
        if pb or tuple(g2) != tuple(got[:len(g2)]):
            return None, "a shorter form is laid out differently: %s" % (pb or g2)
    return ("struct", nm, tuple(got)), None


def plain(s):
    """Schema with the special public description names resolved to bytes."""
    if isinstance(s, str):
        return s
    if s[0] == "named" and norm(s[1]) == "nullablepublickey":
        return ("array", "u8", 32)
    if s[0] == "named" and norm(s[1]) == "delegateroles":
        return "u8"
    if s[0] == "fixed":
        return ("array", "u8", s[2])
    if s[0] == "zoption":
        return plain(s[1])
    if s[0] == "struct":
        return ("struct", s[1], tuple((n, plain(x)) for n, x in s[2]))
    if s[0] in ("rest", "vec", "option"):
        return (s[0], plain(s[1]))
    if s[0] == "sized":
        return ("sized", s[1], plain(s[2]))
    if s[0] == "enum":
        return ("enum", s[1], tuple((k, n, tuple((a, plain(x)) for a, x in fs)) for k, n, fs in s[2]))
    return s


def both_ways(ctx, crate, path, R, rule):
    """Schema a crate's type is encoded with, having checked it is decoded with the same."""
    out = {}
    for way in ("ser", "de"):
        cod = codec(ctx, crate, way)
        t = ty_of(cod.P, path)
        out[way] = cod.schema(t) if t is not None else ("none", path)
        b = wire.broken(out[way])
        R.ob(rule + ":" + way, b is None, "%s: %s" % (path, b))
    d = wire.differ(out["ser"], out["de"], "%s written / read" % wire.short(path))
    R.ob(rule + ":roundtrip", d is None, d)
    return out["ser"]


def codec(ctx, crate, way):
    c = ctx.__dict__.setdefault("_codecs", {})
    if (crate, way) not in c:
        c[crate, way] = wire.Codec(ctx, crate, way)
    return c[crate, way]


CT = "nifty_asset::generated::types::"
IT = "nifty_asset_interface::generated::types::"
TT = "nifty_asset_types::"
ENUMS = [  # program type, sibling types, name in the published description
    (TT + "state::Discriminator", [("nifty_asset", CT + "discriminator::Discriminator")]),
    (TT + "state::State", [("nifty_asset", CT + "state::State")]),
    (TT + "state::Standard", [("nifty_asset", CT + "standard::Standard"), ("nifty_asset_interface", IT + "standard::Standard")]),
    (TT + "state::delegate::DelegateRole", [("nifty_asset", CT + "delegate_role::DelegateRole"), ("nifty_asset_interface", IT + "delegate_role::DelegateRole")]),
    (TT + "extensions::ExtensionType", [("nifty_asset", CT + "extension_type::ExtensionType"), ("nifty_asset_interface", IT + "extension_type::ExtensionType")]),
    (TT + "extensions::properties::Type", [("nifty_asset", CT + "r#type::Type")]),
]


def same_enum(R, rule, names, s, where):
    d = wire.differ(("enum", "", tuple((k, n, ()) for n, k in names.items())), s, where)
    R.ob(rule, d is None, d, where)


def prim_numbers(ctx, R, crate, path, names, rule):
    """FromPrimitive of a client's enumeration."""
    for meth in ("from_u64", "from_i64"):
        g = one_fn(ctx, crate, r"_FOR_%s::<impl num_traits::(cast::)?FromPrimitive for %s>::%s$" % (path.rsplit("::", 1)[1], re.escape(path), meth), R, rule)
        if g:
            t = num_table(ctx, crate, g, [x for x in probes(names) if x < max(names.values()) + 4 or x > 255], R, rule, names)
            back = {k: n for n, k in names.items()}
            for x, n in t.items():
                R.ob(rule, n == back.get(x), "%d is %s by FromPrimitive and %s by definition" % (x, n, back.get(x)), g.span)


def C24_numbers(ctx, R):
    cod = Codama()
    idls = [Idl("asset_program.json"), Idl("nifty_asset_interface.json")]
    for path, sibs in ENUMS:
        names = enum_def(ctx, "nifty_asset_types", path)
        R.ob("types-enum", len(names) >= 2, "%s not found" % path)
        sh = wire.short(path)
        for crate, p in sibs:
            nums = enum_def(ctx, crate, p)
            R.ob("%s:%s" % (crate, sh), nums == names, "%s: %s / %s" % (sh, sorted(names.items()), sorted(nums.items())))
            s = both_ways(ctx, crate, p, R, "%s:%s" % (crate, sh))
            same_enum(R, "%s:%s:encoding" % (crate, sh), names, s, p)
            if nums:
                prim_numbers(ctx, R, crate, p, nums, "%s:%s:number" % (crate, sh))
        t = cod.types.get(norm(sh))
        if t is not None:
            same_enum(R, "description:%s" % sh, names, cod.schema(t["type"]), cod.name)
        else:
            R.ob("description:%s" % sh, False, "%s is not in %s" % (sh, cod.name))
        for d in idls:
            if sh in d.types:
                same_enum(R, "%s:%s" % (d.name, sh), names, d.schema({"defined": sh}), d.name)
    for path in ("bridge_program::state::Discriminator", "bridge_program::state::State"):
        names = enum_def(ctx, "bridge_program", path)
        sh = wire.short(path)
        R.ob("bridge-enum", len(names) >= 2, "%s not found" % path)
        p = "nifty_bridge::generated::types::%s::%s" % (sh.lower(), sh)
        nums = enum_def(ctx, "nifty_bridge", p)
        R.ob("nifty_bridge:%s" % sh, nums == names, "%s: %s / %s" % (sh, sorted(names.items()), sorted(nums.items())))
        same_enum(R, "nifty_bridge:%s:encoding" % sh, names, both_ways(ctx, "nifty_bridge", p, R, "nifty_bridge:" + sh), p)
        if nums:
            prim_numbers(ctx, R, "nifty_bridge", p, nums, "nifty_bridge:%s:number" % sh)
        d = Idl("bridge_program.json")
        if sh in d.types:
            same_enum(R, "description:bridge:%s" % sh, names, d.schema({"defined": sh}), d.name)
        else:
            R.ob("description:bridge:%s" % sh, False, "%s is not in %s" % (sh, d.name))


INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64")


def C24_conversions(ctx, R):
    """Every conversion between a C-like enumeration and an integer, in both directions."""
    n_to = n_from = 0
    for crate in ("nifty_asset_types", "bridge_program", "proxy_program", "asset_program", "nifty_asset_interface", "nifty_asset", "nifty_bridge"):
        P = ctx.prog(crate)
        enums = {}
        for t in P.types:
            if t["k"] == "adt" and t.get("ak") == "enum" and t["v"] and all(not v["f"] for v in t["v"]) and t["s"].startswith(crate + "::"):
                enums[t["s"]] = {v["n"]: int(v["d"]) for v in t["v"]}
        for l in P.by_path.values():
            for f in l:
                m = re.search(r"<impl core::convert::(?:Into|From)<&?(%s.*?)> for (\w+)>::(?:from|into)$" % crate, f.name)
                if m and m.group(1) in enums and m.group(2) in INTS:
                    n_to += 1
                    for n, x in enums[m.group(1)].items():
                        vs = tab(ctx, crate, f, x)
                        ok = len(vs) == 1 and as_int(vs[0]) == x
                        R.ob("to-number", ok, "%s::%s is number %s and converts to %s" % (m.group(1), n, x, vs[:2]), f.span)
                m = re.search(r"^<(%s::.*) as core::convert::(Try)?From<(\w+)>>::(try_)?from$" % crate, f.name)
                if m and m.group(1) in enums and m.group(3) in INTS:
                    n_from += 1
                    names = enums[m.group(1)]
                    for n, x in names.items():
                        vs = tab(ctx, crate, f, x)
                        if m.group(2):
                            vs = [v.a[2][0] if agg_of(v) is not None and variant_name(P, v) == "Ok" and len(v.a[2]) == 1 else v for v in vs]
                        ok = len(vs) == 1 and as_int(vs[0]) == x
                        back = [k for k, y in names.items() if vs and y == as_int(vs[0])] if len(vs) == 1 else vs
                        R.ob("from-number", ok, "number %d of %s::%s converts to %s" % (x, m.group(1), n, back), f.span)
    R.stats["conversions"] = n_to + n_from
    R.ob("conversions", n_to >= 6 and n_from >= 7, "only %d conversions to and %d from numbers found" % (n_to, n_from))


def C24_accounts(ctx, R):
    cod = Codama()
    P = ctx.prog("nifty_asset_types")
    a = layout(P, ty_of(P, TT + "state::asset::Asset"))
    R.ob("asset-layout", wire.broken(a) is None, wire.broken(a))
    size = P.size(ty_of(P, TT + "state::asset::Asset"))
    ln = [c for p, c in P.consts if p.endswith("asset::Asset::LEN")]
    R.ob("asset-length", len(ln) == 1 and ln[0].get("v") in (size, str(size)), "Asset::LEN %s, size %s" % (ln[:1], size))
    c = both_ways(ctx, "nifty_asset", "nifty_asset::generated::accounts::internal_asset::InternalAsset", R, "client-asset")
    R.ob("client-asset", wire.differ(a, c, "account") is None, wire.differ(a, c, "account header in the program / in the Rust client"))
    for x in cod.d["accounts"]:
        if norm(x["name"]) in ("internalasset", "asset"):
            s = plain(cod.schema(x["data"]))
            d = wire.differ(a, s, "account header in the program / %s" % cod.name)
            R.ob("description-asset", d is None, d)
            break
    else:
        R.ob("description-asset", False, "no account in %s" % cod.name)
    h = both_ways(ctx, "nifty_asset", CT + "extension_header::ExtensionHeader", R, "client-header")
    flat = [(n, s) for n, s in h[2]] if h[0] == "struct" else []
    R.ob("client-header", [s for n, s in flat] == ["u32"] * 4 and [norm(n) for n, s in flat][:3] == ["kind", "length", "boundary"],
         "extension header of the client: %s" % flat)
    s = cod.types.get("extensionheader")
    d = wire.differ(h, plain(cod.schema(s["type"])), "extension header") if s else "missing"
    R.ob("description-header", d is None, d)
    # the header the program reads: four words, in the order type, length, boundary
    et = ty_of(P, TT + "extensions::Extension")
    R.ob("header-size", et is not None and P.size(et) == 16, "an extension header takes %s bytes" % (P.size(et) if et is not None else None))
    for meth, k, conv in (("extension_type", 0, True), ("length", 1, False), ("boundary", 2, False)):
        f = [g for l in P.by_path.values() for g in l if g.path == TT + "extensions::Extension::" + meth]
        R.ob("header-words", len(f) == 1, "no reader of the header's %s" % meth)
        if len(f) != 1:
            continue
        def args(I, st):
            st.mem[BUF] = ()
            return [ref_of(BUF, 0, 16)]
        run = FnRun(ctx, "nifty_asset_types", f[0], args)
        want = mk("ld", BUF, 4 * k, 4)
        for p in run.parts:
            v = p.value
            good = v is want if not conv else occurs_word(p, v, want)
            R.ob("header-words", good, "%s reads %s, not word %d" % (meth, v, k), f[0].span)
        R.ob("header-words", bool(run.parts), "%s never returns" % meth)
    B = ctx.prog("bridge_program")
    v = layout(B, ty_of(B, "bridge_program::state::vault::Vault"))
    R.ob("vault-layout", wire.broken(v) is None, wire.broken(v))
    c = both_ways(ctx, "nifty_bridge", "nifty_bridge::generated::accounts::vault::Vault", R, "client-vault")
    d = wire.differ(v, c, "vault in the program / in the Rust client")
    R.ob("client-vault", d is None, d)


def occurs_word(p, v, want):
    """A type read from a word: the value is determined by the word's own value on this path."""
    if v is want:
        return True
    x = as_int(v)
    if isinstance(x, int):
        return p.must(eq(want, x))
    return occurs(v, lambda t: t is want)


EXTS = [("Attributes", "attributes::Attributes"), ("Blob", "blob::Blob"), ("Bucket", "bucket::Bucket"), ("Creators", "creators::Creators"),
        ("Grouping", "grouping::Grouping"), ("Links", "links::Links"), ("Manager", "manager::Manager"), ("Metadata", "metadata::Metadata"),
        ("Proxy", "proxy::Proxy")]


def C24_extensions(ctx, R):
    cod = Codama()
    for nm, path in EXTS:
        s, pb = view_schema(ctx, nm)
        R.ob("program:" + nm, s is not None and wire.broken(s) is None, "%s: %s" % (nm, pb or wire.broken(s)))
        c = both_ways(ctx, "nifty_asset", CT + path, R, "client:" + nm)
        d = cod.types.get(norm(nm))
        R.ob("description:" + nm, d is not None, "%s is not in %s" % (nm, cod.name))
        if s is not None:
            x = wire.differ(plain(s), plain(c), "%s in the program / in the Rust client" % nm)
            R.ob("client:" + nm, x is None, x)
        if d is not None:
            x = wire.differ(plain(c), plain(cod.schema(d["type"])), "%s in the Rust client / %s" % (nm, cod.name))
            R.ob("description:" + nm, x is None, x)
    for crate, base in (("nifty_asset", CT), ("nifty_asset_interface", IT)):
        for nm, path in (("DelegateInput", "delegate_input::DelegateInput"), ("ExtensionInput", "extension_input::ExtensionInput"), ("Strategy", "strategy::Strategy")):
            both_ways(ctx, crate, base + path, R, "%s:%s" % (crate, nm))
    for nm in ("Delegate", "Creator", "Trait", "Link"):
        t = [x["s"] for x in ctx.prog("nifty_asset").types if x["k"] == "adt" and re.match(r"^nifty_asset::generated::types::[\w#]+(::[\w#]+)?::%s$" % nm, x["s"])]
        R.ob("client:" + nm, len(t) == 1, "%s not found" % nm)
        if t:
            c = both_ways(ctx, "nifty_asset", t[0], R, "client:" + nm)
            d = cod.types.get(norm(nm))
            x = wire.differ(plain(c), plain(cod.schema(d["type"])), "%s in the Rust client / %s" % (nm, cod.name)) if d else "missing"
            R.ob("description:" + nm, x is None, x)


def C24_hooked(ctx, R):
    """The client's readings of the zero key and of the role bits."""
    P = ctx.prog("nifty_asset")
    f = [g for l in P.by_path.values() for g in l if g.path.endswith("hooked::nullable_public_key::NullablePublicKey::to_option")]
    R.ob("nullable-key", len(f) == 1, "to_option not found")
    if len(f) == 1:
        K = mk("sym", "K", None)

        def args(I, st):
            st.cells[-5] = K
            return [mk("ref", mk("cell", -5, ()), None)]
        run = FnRun(ctx, "nifty_asset", f[0], args)
        R.ob("nullable-key", bool(run.parts) and not run.I.unknown, "unknown calls %s" % sorted(run.I.unknown)[:2])
        for p in run.parts:
            v = agg_of(p.value)
            n = variant_name(P, v) if v is not None else None
            if n == "None":
                R.ob("nullable-key", p.must(eq(K, ZERO32)), "a key is read as absent without being all zeros", f[0].span)
            elif n == "Some":
                R.ob("nullable-key", p.must(ne(K, ZERO32)) and v.a[2][0] is K, "a key that may be all zeros is read as present", f[0].span)
            else:
                R.ob("nullable-key", False, "unexpected %s" % (v,), f[0].span)
    f = [g for l in P.by_path.values() for g in l if g.path.endswith("hooked::delegate_roles::DelegateRoles::to_vec")]
    R.ob("delegate-roles", len(f) == 1, "to_vec not found")
    if len(f) == 1:
        roles = enum_def(ctx, "nifty_asset", TT + "state::delegate::DelegateRole")
        for x in range(16):
            def args(I, st):
                st.cells[-5] = x
                return [mk("ref", mk("cell", -5, ()), None)]
            run = FnRun(ctx, "nifty_asset", f[0], args)
            back = {k: n for n, k in roles.items()}
            for p in run.parts:
                v = p.value
                l = None
                if isinstance(v, T) and v.tag == "vec":
                    l = sorted(str(back.get(as_int(e))) for e in v.a[0])
                elif isinstance(v, T) and v.tag == "seq" and all(e[0] == "1" for e in v.a[0]):
                    l = sorted(str(back.get(as_int(e[1]))) for e in v.a[0])
                want = sorted(n for n, b in (("Transfer", 1), ("Lock", 2), ("Burn", 4)) if x & b) if x & 7 else ["None"]
                R.ob("delegate-roles", l is not None and [i for i in l if i != "None"] == [i for i in want if i != "None"],
                     "roles %d are read as %s, not %s" % (x, l if l is not None else v, want), f[0].span)
            R.ob("delegate-roles", bool(run.parts), "no result for %d" % x)


ONCE["C24"] = {"numbers": C24_numbers, "conversions": C24_conversions, "accounts": C24_accounts, "extensions": C24_extensions, "hooked": C24_hooked}
EXPLAIN["C24"] = _TAB + ("Memory layouts come from the compiler, the order of fields in an extension from the abstract run of its reader on unknown "
                         "bytes, client formats from their borsh encoders and decoders, and numbers of alternatives from definitions, both conversion "
                         "directions and the encodings.")
ASSUME["C24"] = ["kaigan collections serialise as documented (RemainderVec: elements to the end; U8PrefixString: one length byte)"]
