"""Which rule decides which property, over which subjects."""
import importlib

PER, ONCE, EXPLAIN, ASSUME = {}, {}, {}, {}
for _m in ("p_asset", "p_asset2", "p_asset3", "p_types", "p_tables", "p_idl", "p_bridge", "p_mint", "p_macro", "p_json", "p_rank", "p_exact"):
    try:
        _mod = importlib.import_module(_m)
    except ModuleNotFoundError as e:
        if e.name != _m:
            raise
        continue
    for _k, _v in getattr(_mod, "PER", {}).items():
        PER.setdefault(_k, []).append(_v)
    for _k, _v in getattr(_mod, "ONCE", {}).items():
        ONCE.setdefault(_k, {}).update(_v)
    EXPLAIN.update(getattr(_mod, "EXPLAIN", {}))
    ASSUME.update(getattr(_mod, "ASSUME", {}))


def subjects(prop):
    out = []
    for fn, instrs in PER.get(prop, []):
        out += [i for i in instrs if i not in out]
    out += sorted(ONCE.get(prop, {}))
    if not out:
        raise SystemExit("unknown property " + prop)
    return out


def run_job(ctx, prop, subject, R):
    for fn, instrs in PER.get(prop, []):
        if subject in instrs:
            run = ctx.run(subject)
            R.stats["abstract success paths"] = len(run.parts)
            R.stats["rejecting paths"] = run.err
            R.stats["functions"] = len(run.I.visited)
            R.stats["loops"] = len(run.I.loops)
            fn(ctx, subject, run, R)
            if run.I.unknown:
                R.notes.append("%s: calls left opaque: %s" % (subject, sorted(run.I.unknown)[:10]))
    if subject in ONCE.get(prop, {}):
        ONCE[prop][subject](ctx, R)


DEFAULT_EXPLAIN = (
    "Trace-partitioned abstract interpretation of the type-checked MIR of the current source tree. "
    "Every path of every listed instruction handler that returns success is over-approximated by an abstract "
    "partition (entry facts, final account memory, effects); each rule states an obligation that must be entailed "
    "on every partition. No code is executed and no solver is used.")
TRUSTED = ["rustc front end (MIR construction)", "analysis/absint.py transfer functions",
           "analysis/models.py library models (nitrate accounts, system program, podded, core/alloc)",
           "analysis/rules.py obligations"]
DEFAULT_ASSUME = [
    "integer arithmetic of the on-chain build as compiled without overflow checks is modelled modulo the word size where a rule depends on it",
    "account data is well formed: recorded extension boundaries follow their own header (established by C18, C19, C21)",
    "distinct account indexes denote distinct accounts unless the rule says otherwise"]
