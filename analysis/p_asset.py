"""Rules C01..C12: authorisation, state machine and frame of every instruction."""
from rules import *  # noqa

# header fields of account 0 an instruction may change
HEADER_MAY = {"Transfer": {"owner", "delegate"}, "Approve": {"delegate"}, "Revoke": {"delegate"},
              "Lock": {"state"}, "Unlock": {"state"}, "Update": {"name", "mutable"}, "Handover": {"authority"},
              "Group": {"group"}, "Ungroup": {"group"}, "Create": set(FIELDS)}
# accounts whose data may change: {instruction: {account: kinds}}
WRITABLE = {
    "Close": {0: "all", 1: "lam"}, "Burn": {0: "all", 1: "lam", 2: "lam", 3: "data"},
    "Create": {0: "all", 3: "data", 5: "lam"}, "Approve": {0: "data"}, "Allocate": {0: "all", 1: "lam"},
    "Lock": {0: "data"}, "Revoke": {0: "data"}, "Transfer": {0: "data"}, "Unlock": {0: "data"},
    "Unverify": {0: "data"}, "Update": {0: "all", 2: "all", 4: "lam"}, "Verify": {0: "data"},
    "Write": {0: "all", 1: "lam"}, "Group": {0: "data", 1: "data"}, "Ungroup": {0: "data", 1: "data"},
    "Handover": {0: "data"}, "Remove": {0: "all", 3: "lam"}, "Resize": {0: "all", 2: "lam"}}
EXISTING = ["Burn", "Approve", "Lock", "Revoke", "Transfer", "Unlock", "Unverify", "Update", "Verify", "Group",
            "Ungroup", "Handover", "Remove", "Resize"]
GROUP_ACCT = {"Group": 1, "Ungroup": 1}


def delegate_auth(role, s=1):
    return [[eq(D(0, F_OWNER), key(s))],
            [eq(D(0, F_DELEG), key(s)), bit(D(0, F_ROLES), role)],
            [has(0, T_MANAGER), eq(E(0, T_MANAGER, 0, 32), key(s)), bit(E(0, T_MANAGER, 32, 1), role)]]


def header_frame(R, p, instr, fields, rule):
    """Listed header fields of every account keep their entry value, unless the instruction may set them."""
    accts = {0}
    if any(e[2] == 0 for e in p.effects("create_account")):
        # a fresh account: the system program only creates accounts that hold no data yet
        R.ob("%s: fresh account is account 0" % rule, instr in ("Allocate", "Create"))
        return
    for r, o, s, v, l in p.writes():
        if r.tag == "data":
            accts.add(r.a[0])
    for a in sorted(accts, key=str):
        for f in fields:
            if a == 0 and f in HEADER_MAY.get(instr, ()):
                continue
            R.ob("%s: %s of account %s kept" % (rule, f, a), p.keeps(a, FIELDS[f]),
                 "final value %r" % (p.fin(a, FIELDS[f]),), p.span_of(data(a)))


def only_touches(R, p, allowed, rule):
    """allowed: {account: predicate(kind, region, off, size)}"""
    for a, ws in p.touched().items():
        for kind, r, o, s, v, l in ws:
            pr = allowed.get(a)
            ok = pr is not None and pr(kind, r, o, s)
            if not ok and kind in ("data", "ext", "lam", "dlen", "owner") and l is None and isinstance(s, int):
                # a store of the value already there is no change
                ok = p.final(r, o, s) is mk("ld", r, o, s)
            R.ob("%s: %s of account %s" % (rule, kind, a), ok, "write %r[%r;%r]=%r" % (r, o, s, v), p.span_of(r))


def in_range(p, o, s, lo, n):
    return s is not None and p.must(le(lo, o)) and p.must(le(add(o, s), lo + n))


def C01(ctx, instr, run, R):
    if instr == "Transfer":
        moved = 0
        for p in run.parts:
            w = p.span_of(data(0), 4)
            if p.keeps(0, F_OWNER):
                only_touches(R, p, {}, "nothing changes unless the owner does")
                continue
            q = p.given(ne(D(0, F_OWNER), key(2)))
            if q is None:
                R.ob("owner rewritten to itself", True)
                only_touches(R, p, {0: lambda k, r, o, s: k == "data" and in_range(p, o, s, 4, 32)},
                             "self-transfer changes nothing")
                continue
            moved += 1
            R.ob("signed", p.must(signer(1)), "owner changes without signature of account 1", w)
            R.ob("signer is owner or transfer delegate", p.dnf(*delegate_auth(ROLE_TRANSFER)), "", w)
            R.ob("new owner is the recipient", p.becomes(0, F_OWNER, key(2)), "%r" % p.fin(0, F_OWNER), w)
            R.ob("delegate cleared", p.becomes(0, F_DELEG, ZERO32), "%r" % p.fin(0, F_DELEG), w)
            only_touches(R, p, {0: lambda k, r, o, s: k == "data" and (in_range(p, o, s, 4, 32) or in_range(p, o, s, 100, 33))},
                         "transfer changes owner and delegate only")
            z = p.given(eq(D(0, F_OWNER), key(2)))
            if z is not None:
                R.ob("transfer to the current owner changes nothing", z.keeps(0, F_DELEGATE), "delegate dropped", w)
        R.ob("transfer moves ownership", moved > 0, "no success path changes the owner")
    else:
        for p in run.parts:
            header_frame(R, p, instr, ["owner"], "ownership")


def C02(ctx, instr, run, R):
    for p in run.parts:
        if instr in ("Transfer", "Burn", "Approve", "Revoke", "Lock"):
            for k in range(8):
                R.ob("rejected while account %d is a locked asset" % k,
                     p.must(ne(own(k), ctx.ID), ne(D(k, F_DISC), 1), ne(D(k, F_STATE), 1), eq(dl(k), 0), le(NACC, k)))
        if instr == "Lock":
            R.ob("lock sets locked", p.becomes(0, F_STATE, 1), "%r" % p.fin(0, F_STATE))
        elif instr == "Unlock":
            R.ob("unlock sets unlocked", p.becomes(0, F_STATE, 0), "%r" % p.fin(0, F_STATE))
            R.ob("unlock is not gated by the lock", run_sat(run, eq(D(0, F_STATE), 1)))
        elif instr == "Create":
            p = created(p)
            if p is not None:
                R.ob("created unlocked", p.becomes(0, F_STATE, 0), "%r" % p.fin(0, F_STATE))
        else:
            header_frame(R, p, instr, ["state"], "lock state")
    if instr in ("Lock", "Unlock"):
        R.ob("%s succeeds on some path" % instr, bool(run.parts))


def created(p):
    """Creation under the buffer invariant: the fixed header of an account that is not yet an asset is
    all zero (fresh accounts are zeroed; C19 shows that no instruction writes below the extensions)."""
    q = p.given(*[eq(D(0, f), 0 if f[1] == 1 else ZERO32) for f in (F_STATE, F_ROLES, F_GROUP, F_DELEG)])
    return q


def run_sat(run, *lits):
    return any(p.sat(*lits) for p in run.parts)


def C03(ctx, instr, run, R):
    for p in run.parts:
        if instr != "Create":
            header_frame(R, p, instr, ["standard"], "standard fixed")
            if not p.keeps(0, F_OWNER) and not p.effects("create_account"):
                R.ob("owner change needs a transferable standard", p.must(ne(D(0, F_STD), 2)),
                     "soulbound not excluded", p.span_of(data(0), 4))
        else:
            R.ob("creation stores the requested standard", True)
    if instr == "Transfer":
        R.ob("some standards transfer", run_sat(run, eq(D(0, F_STD), 0)))


def C04(ctx, instr, run, R):
    for p in run.parts:
        if instr in ("Update", "Remove", "Resize", "Handover"):
            R.ob("rejected when immutable", p.must(ne(D(0, F_MUT), 0)), "immutable asset accepted")
        if instr == "Update":
            # mutability only ever goes from the mutable state to what the caller asked for
            R.ob("mutability changes only on a mutable asset", p.keeps(0, F_MUT) or p.must(ne(D(0, F_MUT), 0)))
        elif instr != "Create":
            header_frame(R, p, instr, ["mutable"], "mutability")
    R.ob("%s succeeds on some path" % instr, bool(run.parts))


def ext_frame_ok(p, instr):
    """Which writes outside the header each instruction may make without the authority (by account)."""
    def grouping_size(i):
        def f(k, r, o, s):
            return k == "ext" and r is ext(i, T_GROUPING) and in_range(p, o, s, 0, 8)
        return f
    hdr = lambda k, r, o, s: k == "data" and in_range(p, o, s, 0, A_LEN)  # noqa: E731
    if instr in ("Approve", "Lock", "Revoke", "Transfer", "Unlock", "Handover"):
        return {0: hdr}
    if instr in ("Verify", "Unverify"):
        return {0: lambda k, r, o, s: k == "ext" and r is ext(0, T_CREATORS)}
    if instr in ("Group", "Ungroup"):
        return {0: hdr, 1: grouping_size(1)}
    if instr == "Burn":
        return {0: lambda k, r, o, s: k in ("lam", "dlen", "owner"), 3: grouping_size(3),
                1: lambda k, r, o, s: k == "lam", 2: lambda k, r, o, s: k == "lam"}
    return None


def C05(ctx, instr, run, R):
    for p in run.parts:
        if instr in ("Update", "Remove", "Resize", "Handover"):
            R.ob("authority signed", p.must(signer(1)), "no signature of account 1 required")
            R.ob("signer is the recorded authority", p.must(eq(D(0, F_AUTH), key(1))), "authority not compared")
        if instr == "Handover":
            R.ob("new authority signed", p.must(signer(2)))
            R.ob("authority becomes the new authority", p.becomes(0, F_AUTH, key(2)), "%r" % p.fin(0, F_AUTH))
        if instr not in ("Create",):
            header_frame(R, p, instr, ["authority", "name", "mutable"] if instr != "Handover" else ["name", "mutable"],
                         "authority data")
        al = ext_frame_ok(p, instr)
        if al is not None:
            only_touches(R, p, al, "extensions and size unchanged")
        if instr == "Update":
            for f in ("name", "mutable"):
                if not p.keeps(0, FIELDS[f]):
                    R.ob("%s change is authorised" % f, p.must(signer(1)) and p.must(eq(D(0, F_AUTH), key(1))))
    R.ob("%s succeeds on some path" % instr, bool(run.parts))


def C06(ctx, instr, run, R):
    for p in run.parts:
        if instr in EXISTING:
            R.ob("asset owned by the program", p.must(eq(own(0), ctx.ID)))
            R.ob("asset marked initialized", p.must(eq(D(0, F_DISC), 1)))
            R.ob("asset data long enough", p.must(le(A_LEN, dl(0))))
        g = GROUP_ACCT.get(instr)
        if g is not None:
            R.ob("group owned by the program", p.must(eq(own(g), ctx.ID)))
            R.ob("group marked initialized", p.must(eq(D(g, F_DISC), 1)))
            R.ob("group data long enough", p.must(le(A_LEN, dl(g))))
        for a, ws in p.touched().items():
            w = WRITABLE[instr].get(a)
            for kind, r, o, s, v, l in ws:
                ok = w == "all" or (w == "data" and kind in ("data", "ext")) or (w == "lam" and kind == "lam")
                if not ok and l is None and isinstance(s, int):
                    ok = p.final(r, o, s) is mk("ld", r, o, s)
                R.ob("only documented-writable accounts change: %s of account %s" % (kind, a), ok,
                     "write %r[%r;%r]" % (r, o, s), p.span_of(r))
        if instr == "Create" and any(r.tag == "ext" and root_acct(r) == 3 for r, *_ in p.writes()):
            R.ob("group of a created asset is genuine", p.all(*ctx.genuine(3)) and p.must(le(A_LEN, dl(3))))
        if instr == "Transfer":
            for e in p.effects("assert"):
                reg = e[1].a[0] if e[1].tag == "constraint" else None
                if root_acct(reg) == 3:
                    R.ob("group consulted for royalties is genuine", p.all(*ctx.genuine(3)))
    R.ob("%s succeeds on some path" % instr, bool(run.parts))


# ------------------------------------------------------------------ C07
def elem_terms(I, lid):
    """Terms of the loop that denote the current element (loads at the loop index)."""
    out = set()
    info = I.loops[lid]
    idx = [ph for ph in info["phis"] if I.phis[ph]["steps"] and all(eq(s, add(ph, 1)) == 1 for s in I.phis[ph]["steps"] if s is not None)]
    terms = set()
    for ph in info["phis"]:
        for s in I.phis[ph]["steps"]:
            subterms(s, terms) if isinstance(s, T) else None
    for facts, effs in info["effects"]:
        for f in facts:
            subterms(f, terms)
        for e in all_effects(I, effs):
            if e[0] == "write":
                for x in e[1:5]:
                    if isinstance(x, T):
                        subterms(x, terms)
    for t in terms:
        if t.tag in ("ld", "idx", "fld", "discr", "nextof") and any(occurs(t, lambda u, ph=ph: u is ph) for ph in idx):
            if t.tag == "ld" and root_acct(t.a[0]) is not None:
                continue
            out.add(t)
    # keep only maximal ones that are compared or computed with: all are evaluated alike
    return idx, out


def roles_len(ix):
    return mk("len", mk("fld", mk("fld", mk("sym", "ix", None), ix, 0), 1, 0))


def loop_covers(p, lid, ix):
    """The loop runs over every requested role: index from 0 to the length of the list."""
    I = p.I
    idx, _ = elem_terms(I, lid)
    n = roles_len(ix)
    for ph in idx:
        if I.phis[ph]["init"] == 0 and p.must(le(n, ph)):
            return True
    # iterator form: index φ holds the consumed count
    for f in p.st.facts:
        if f.tag == "p" and f.a[0] == "forall" and f.a[2] == 0 and f.a[3] is n:
            return True
    return False


def fold_value(p, v, ix, old, want):
    """Check that v is `old` combined with every requested role (want(cur, role))."""
    I = p.I
    phis = [t for t in subterms(v) if t.tag == "phi"] if isinstance(v, T) else []
    if len(phis) != 1:
        return False, "roles value %r" % (v,)
    ph = phis[0]
    inf = I.phis[ph]
    lid = ph.a[0]
    if not loop_covers(p, lid, ix):
        return False, "loop does not cover all requested roles"
    idx, elems = elem_terms(I, lid)
    if not elems:
        return False, "no element read in loop"
    for cur in range(8):
        for role in (1, 2, 3):
            env = {e: role for e in elems}
            env[ph] = cur
            n = 0
            for s, facts in zip(inf["steps"], inf["facts"]):
                if not consistent(facts, env):
                    continue
                n += 1
                if teval(s, env) != want(cur, role):
                    return False, "role %d: step %r" % (role, s)
            if not n:
                return False, "role %d never applied" % role
    return inf["init"], ph


def C07(ctx, instr, run, R):
    idx = INSTRS.index(instr)
    argd = mk("discr", mk("fld", mk("sym", "ix", None), idx, 0))
    if instr == "Approve":
        kinds = set()
        for p in run.parts:
            w = p.span_of(data(0))
            R.ob("owner signed", p.must(signer(1)) and p.must(eq(D(0, F_OWNER), key(1))), "", w)
            only_touches(R, p, {0: lambda k, r, o, s: k == "data" and in_range(p, o, s, 100, 33)}, "approve changes the delegate only")
            is_all = p.must(eq(argd, 0))
            is_some = p.must(ne(argd, 0))
            if not R.ob("argument kind decided", is_all or is_some):
                continue
            for same in (True, False):
                q = p.given(*([eq(D(0, F_DELEG), key(2)), ne(D(0, F_DELEG), ZERO32)] if same else [ne(D(0, F_DELEG), key(2))]))
                if q is None:
                    continue
                R.ob("delegate becomes the given account", q.becomes(0, F_DELEG, key(2)), "%r" % q.fin(0, F_DELEG), w)
                v = q.fin(0, F_ROLES)
                old = D(0, F_ROLES)
                tag = "adds to the current delegate's roles" if same else "replaces with exactly the requested roles"
                kinds.add((same, is_all))
                if is_all:
                    ok = all(teval(v, {old: r}) == ((r | 7) if same else 7) for r in range(8))
                    R.ob("all roles: " + tag, ok, "%r" % v, w)
                else:
                    init, ph = fold_value(q, v, idx, old, lambda c, r: c | (1 << (r - 1)))
                    if init is False:
                        R.ob("some roles: " + tag, False, ph, w)
                        continue
                    ok = True
                    for r in range(8):
                        i0 = teval(init, {old: r})
                        for f in range(8):
                            got = teval(v, {old: r, ph: f})
                            # result must be init/combination such that folding requested set S gives old|S or S
                            if i0 is None or got is None:
                                ok = False
                            elif i0 == 0:
                                ok &= got == ((r | f) if same else f)
                            else:
                                ok &= same and i0 == r and got == f
                    R.ob("some roles: " + tag, ok, "%r" % v, w)
        R.ob("approve covers add/replace for all/some", len(kinds) == 4, "found %r" % kinds)
    elif instr == "Revoke":
        seen = set()
        for p in run.parts:
            w = p.span_of(data(0))
            R.ob("owner or current delegate signed", p.must(signer(1)) and
                 p.dnf([eq(D(0, F_OWNER), key(1))], [eq(D(0, F_DELEG), key(1)), ne(D(0, F_DELEG), ZERO32)]), "", w)
            only_touches(R, p, {0: lambda k, r, o, s: k == "data" and in_range(p, o, s, 100, 33)}, "revoke changes the delegate only")
            is_all = p.must(eq(argd, 0))
            is_some = p.must(ne(argd, 0))
            if not R.ob("argument kind decided", is_all or is_some):
                continue
            if is_all:
                seen.add("all")
                R.ob("revoke all removes the delegate", p.becomes(0, F_DELEG, ZERO32), "%r" % p.fin(0, F_DELEG), w)
                continue
            q = p.given(ne(D(0, F_DELEG), ZERO32))
            if q is None:
                R.ob("no delegate: nothing set", p.keeps(0, F_DELEG) or p.becomes(0, F_DELEG, ZERO32))
                continue
            revoke_some(R, q, idx, seen, w)
        R.ob("revoke covers all, last role and some roles", seen == {"all", "cleared", "kept"}, "%r" % seen)
    else:
        for p in run.parts:
            if instr == "Transfer":
                v = p.fin(0, F_DELEG)
                R.ob("transfer never sets a delegate", p.keeps(0, F_DELEGATE) or p.same(v, ZERO32), "%r" % v)
            elif instr == "Create":
                q = created(p)
                if q is not None:
                    R.ob("created without delegate", q.becomes(0, F_DELEG, ZERO32), "%r" % q.fin(0, F_DELEG))
            else:
                header_frame(R, p, instr, ["delegate"], "delegation")


def effects_under(effs, env):
    for e in effs:
        if e[0] == "ite":
            c = teval(e[1], env)
            if c is None:
                yield ("write", None, None, None, None)
            else:
                yield from effects_under(e[2] if c else e[3], env)
        else:
            yield e


def revoke_some(R, q, ix, seen, w):
    """Roles after the loop = roles before minus the requested ones; cleared iff none left."""
    I = q.I
    old = D(0, F_ROLES)
    # form 1: in-place updates in a loop over the request; form 2: folded value then one store
    lids = [e[1] for e in q.effs if e[0] == "loop" and data(0) in I.loops[e[1]]["writes"]]
    cur = None
    if lids:
        lid = lids[-1]
        if not R.ob("every requested role is revoked", loop_covers(q, lid, ix), "loop does not cover the request", w):
            return
        idx, elems = elem_terms(I, lid)
        terms = set()
        for facts, effs in I.loops[lid]["effects"]:
            for e in all_effects(I, effs):
                if e[0] == "write" and isinstance(e[4], T):
                    subterms(e[4], terms)
        curs = [t for t in terms if t.tag == "ld" and t.a[0] is data(0) and t.a[1] == 132]
        ok = bool(elems)
        for c in range(8):
            for role in (1, 2, 3):
                env = {e: role for e in elems}
                for t in curs:
                    env[t] = c
                n = 0
                for facts, effs in I.loops[lid]["effects"]:
                    if not consistent(facts, env):
                        continue
                    n += 1
                    val = c
                    for e in effects_under(effs, env):
                        if e[0] == "write":
                            if e[1] is data(0) and e[2] == 132:
                                val = teval(e[4], env)
                            else:
                                ok = False
                    ok &= val == (c & ~(1 << (role - 1)))
                ok &= n > 0
        R.ob("revoking a role leaves the others unchanged", ok, "", w)
        # value after the loop
        after = [t for f in q.st.facts for t in subterms(f) if t.tag == "ld" and t.a[0] is data(0) and t.a[1] == 132 and len(t.a) > 3]
        after = sorted(set(after), key=lambda t: t.id)
        fin = q.fin(0, F_ROLES)
        cands = after or [fin]
        cur = cands[-1]
    else:
        phs = set()
        for f in q.st.facts:
            for t in subterms(f):
                if t.tag == "phi" and I.phis[t]["init"] is not None and isinstance(I.phis[t]["init"], (int, T)) and any(
                        isinstance(s, T) and eq(s, add(t, 1)) != 1 for s in I.phis[t]["steps"]):
                    phs.add(t)
        v = q.fin(0, F_ROLES)
        for t in subterms(v) if isinstance(v, T) else ():
            if t.tag == "phi":
                phs.add(t)
        if len(phs) != 1:
            R.ob("every requested role is revoked", False, "no loop over the requested roles found", w)
            return
        ph = phs.pop()
        init = I.phis[ph]["init"]
        want = (lambda c, r: c & ~(1 << (r - 1))) if init is old else (lambda c, r: c | (1 << (r - 1)))
        got, x = fold_value(q, ph, ix, old, want)
        if not R.ob("every requested role is revoked", got is not False, str(x), w):
            return
        cur = ph if init is old else None
        if cur is None:
            # mask form: final = old & !mask
            ok = True
            cl = q.same(q.fin(0, F_DELEG), ZERO32)
            for r in range(8):
                for m in range(8):
                    env = {old: r, ph: m}
                    if not consistent(q.st.facts, env):
                        continue
                    if cl:
                        ok &= (r & ~m) == 0
                    else:
                        ok &= teval(v, env) == (r & ~m) != 0
            R.ob("revoking a role leaves the others unchanged", ok, "%r" % v, w)
            seen.add("cleared" if cl else "kept")
            return
    if q.same(q.fin(0, F_DELEG), ZERO32):
        seen.add("cleared")
        R.ob("delegate removed only when no role is left",
             all(not consistent(q.st.facts, {cur: r}) for r in range(1, 8)), "%r" % cur, w)
    else:
        seen.add("kept")
        R.ob("delegate address kept while a role is left", q.keeps(0, F_DELEG), "%r" % q.fin(0, F_DELEG), w)
        fin = q.fin(0, F_ROLES)
        R.ob("remaining roles stored", fin is cur or all(teval(fin, {cur: r}) == r for r in range(8)), "%r" % fin, w)
        R.ob("delegate without roles is removed", not consistent(q.st.facts, {cur: 0}), "%r" % cur, w)


def C08(ctx, instr, run, R):
    for p in run.parts:
        if instr in ("Lock", "Unlock"):
            w = p.span_of(data(0))
            au = delegate_auth(ROLE_LOCK)
            R.ob("signed", p.must(signer(1)), "", w)
            R.ob("signer is a lock delegate, or owner without delegate",
                 p.dnf([eq(D(0, F_OWNER), key(1)), eq(D(0, F_DELEG), ZERO32)], au[1], au[2]), "", w)
            R.ob("exact state stored", p.becomes(0, F_STATE, 1 if instr == "Lock" else 0), "%r" % p.fin(0, F_STATE), w)
            only_touches(R, p, {0: lambda k, r, o, s: k == "data" and in_range(p, o, s, 1, 1)}, "only the state changes")
        elif instr != "Create":
            header_frame(R, p, instr, ["state"], "lock state")
    R.ob("%s succeeds on some path" % instr, bool(run.parts))


def C09(ctx, instr, run, R):
    grouped = 0
    for p in run.parts:
        R.ob("signed", p.must(signer(1)))
        R.ob("signer is owner or burn delegate", p.dnf(*delegate_auth(ROLE_BURN)))
        R.ob("not a non-empty group", p.must(neg(has(0, T_GROUPING)), eq(E(0, T_GROUPING, 0, 8), 0)))
        ungrouped = p.must(eq(D(0, F_GROUP), ZERO32))
        wrote = [x for x in p.writes() if x[0].tag == "ext" or (x[0].tag == "data")]
        if ungrouped:
            R.ob("no group size changes without membership", not wrote, "%r" % wrote[:1])
        else:
            R.ob("grouping known", p.must(ne(D(0, F_GROUP), ZERO32)))
            grouped += 1
            R.ob("its own group's account is given", p.must(eq(key(3), D(0, F_GROUP))))
            sz = p.final(ext(3, T_GROUPING), 0, 8)
            R.ob("group size lowered by one", p.same(sz, add(E(3, T_GROUPING, 0, 8), -1)), "%r" % sz)
            R.ob("group size cannot wrap", p.must(le(1, E(3, T_GROUPING, 0, 8))))
            R.ob("only that group's size changes", all(x[0] is ext(3, T_GROUPING) and in_range(p, x[1], x[2], 0, 8) for x in wrote), "%r" % wrote[:2])
        rc = 2 if p.must(ctx.present(2)) else 1 if p.must(eq(key(2), ctx.ID)) else None
        if R.ob("recipient decided", rc is not None):
            R.ob("whole balance goes to the recipient", p.same(p.lam_after(rc), add(lam(rc), lam(0))), "%r" % p.lam_after(rc))
            R.ob("burned account left empty", p.same(p.lam_after(0), 0), "%r" % p.lam_after(0))
            for a in (1, 2, 3):
                if a != rc:
                    R.ob("nobody else's balance changes", p.lam_after(a) is lam(a), "account %d" % a)
        R.ob("data emptied", p.same(p.final(mk("dlen", 0), 0, 8), 0), "%r" % p.final(mk("dlen", 0), 0, 8))
        R.ob("returned to the system program", p.same(p.final(mk("owner", 0), 0, 32), ZERO32), "%r" % p.final(mk("owner", 0), 0, 32))
    R.ob("grouped and ungrouped burns succeed", grouped > 0 and grouped < len(run.parts))


def C10(ctx, instr, run, R):
    gi = {"Group": 1, "Ungroup": 1, "Burn": 3, "Create": 3}.get(instr)
    joined = 0
    for p in run.parts:
        if instr == "Create":
            p = created(p)
            if p is None:
                continue
        sz0 = E(gi, T_GROUPING, 0, 8) if gi is not None else None
        sz = p.final(ext(gi, T_GROUPING), 0, 8) if gi is not None else None
        w = p.span_of(ext(gi, T_GROUPING)) if gi is not None else None
        if instr in ("Group", "Create"):
            g = p.fin(0, F_GROUP)
            adds = sz is not sz0
            if instr == "Create" and not adds:
                R.ob("no membership without counting", p.same(g, ZERO32), "group field %r" % g)
            else:
                joined += 1
                R.ob("membership set to exactly that group", p.same(g, key(gi)), "%r" % g)
                R.ob("size raised by one", p.same(sz, add(sz0, 1)), "%r" % sz, w)
                R.ob("maximum respected", p.must(eq(E(gi, T_GROUPING, 8, 8), 0), lt(sz0, E(gi, T_GROUPING, 8, 8))), "", w)
            if instr == "Group":
                R.ob("not already in a group", p.must(eq(D(0, F_GROUP), ZERO32)))
        elif instr == "Ungroup":
            joined += 1
            R.ob("membership cleared", p.becomes(0, F_GROUP, ZERO32), "%r" % p.fin(0, F_GROUP))
            R.ob("removed from the group it is in", p.must(eq(D(0, F_GROUP), key(1))))
            R.ob("size lowered by one", p.same(sz, add(sz0, -1)), "%r" % sz, w)
        elif instr == "Burn":
            if p.must(eq(D(0, F_GROUP), ZERO32)):
                R.ob("ungrouped burn leaves sizes", sz is sz0)
            else:
                joined += 1
                R.ob("same group's size lowered by one", p.same(sz, add(sz0, -1)) and p.must(eq(D(0, F_GROUP), key(3))), "%r" % sz, w)
        if instr not in ("Create",):
            header_frame(R, p, instr, ["group"], "membership")
        for r, o, s, v, l in p.writes():
            if r.tag == "ext" and r.a[2] == T_GROUPING:
                R.ob("only the size of the given group changes", gi is not None and r is ext(gi, T_GROUPING) and in_range(p, o, s, 0, 8),
                     "write to %r[%r;%r]" % (r, o, s), p.span_of(r))
        if instr in ("Approve", "Lock", "Revoke", "Transfer", "Unlock", "Handover", "Verify", "Unverify"):
            for r, o, s, v, l in p.writes():
                if r.tag == "data":
                    R.ob("no raw write into extension data", in_range(p, o, s, 0, A_LEN), "%r[%r;%r]" % (r, o, s), p.span_of(r))
    if gi is not None:
        R.ob("%s reaches the counting path" % instr, joined > 0)


def C11(ctx, instr, run, R):
    gi, ai = {"Group": (1, 2), "Ungroup": (1, 2), "Create": (3, 4)}[instr]
    n = 0
    for p in run.parts:
        if instr == "Create":
            p = created(p)
            if p is None:
                continue
        if instr == "Create" and p.final(ext(gi, T_GROUPING), 0, 8) is E(gi, T_GROUPING, 0, 8) and p.same(p.fin(0, F_GROUP), ZERO32):
            continue
        n += 1
        A = D(gi, F_AUTH)
        de = E(gi, T_GROUPING, 16, 32)
        alts = [[signer(ai), eq(A, key(ai))], [signer(ai), eq(de, key(ai)), ne(de, ZERO32)]]
        if instr == "Create":
            # the group authority may be omitted; the asset authority must then sign as the group's
            alts += [[eq(key(ai), ctx.ID), signer(1), eq(A, key(1))], [eq(key(ai), ctx.ID), signer(1), eq(de, key(1)), ne(de, ZERO32)]]
        R.ob("group authority or grouping delegate signed", p.dnf(*alts))
        if instr == "Group":
            R.ob("asset and group share the authority", p.must(eq(D(0, F_AUTH), A)))
        if instr == "Create":
            R.ob("asset and group share the authority", p.must(eq(key(1), A)) or p.same(p.fin(0, F_AUTH), A))
        if instr != "Ungroup":
            R.ob("group carries grouping data", p.must(has(gi, T_GROUPING)))
    R.ob("%s membership path exists" % instr, n > 0)


def C12(ctx, instr, run, R):
    exempt = [lt(STACK, 2), eq(own(1), ZERO32), eq(own(2), ZERO32)]

    def passed(i):
        c = mk("constraint", ext(i, T_ROYALTIES), 8)
        rec = (("asset", 0), ("authority", 1), ("recipient", 2))
        return [eq(mk("assertion", c, rec), 0), neg(mk("p", "asserterr", c, rec))]
    n = 0
    for p in run.parts:
        if p.keeps(0, F_OWNER):
            continue
        n += 1
        own_roy = has(0, T_ROYALTIES)
        # asset's own constraint
        q = p.given(own_roy)
        if q is not None:
            R.ob("asset's royalty constraint passed or exempt", q.dnf(passed(0), exempt), "", p.span_of(data(0), 4))
        q = p.given(neg(own_roy), ne(D(0, F_GROUP), ZERO32))
        if q is not None:
            R.ob("group account supplied", q.must(eq(key(3), D(0, F_GROUP))), "", p.span_of(data(0), 4))
            R.ob("group account genuine", q.all(*ctx.genuine(3)))
            g = q.given(has(3, T_ROYALTIES))
            if g is not None:
                R.ob("group's royalty constraint passed or exempt", g.dnf(passed(3), exempt), "", p.span_of(data(0), 4))
    R.ob("transfers change owners", n > 0)
    R.ob("asset constraint path exists", run_sat(run, has(0, T_ROYALTIES), le(2, STACK)))
    R.ob("group constraint path exists", run_sat(run, neg(has(0, T_ROYALTIES)), ne(D(0, F_GROUP), ZERO32), has(3, T_ROYALTIES), le(2, STACK)))
    R.ob("wallet exemption exists", run_sat(run, has(0, T_ROYALTIES), *exempt))


ALL = list(INSTRS)
PER = {
    "C01": (C01, ALL), "C02": (C02, ALL), "C03": (C03, ALL), "C04": (C04, ALL), "C05": (C05, ALL), "C06": (C06, ALL),
    "C07": (C07, ALL), "C08": (C08, ALL), "C09": (C09, ["Burn"]), "C10": (C10, ALL),
    "C11": (C11, ["Group", "Ungroup", "Create"]), "C12": (C12, ["Transfer"]),
}
