from checks.events import *
META = dict(
    explanation="The event dispatcher is abstractly interpreted over its MIR for an arbitrary header, payload and parser state, every decoder ending in an arbitrary value or an arbitrary error; on every path that returns an error the parser state is compared with the state before.",
    rule="error returned => checksum mode and table definitions unchanged; decoders receive the definitions by shared reference only",
    assumptions=ASSUME)
def run(env):
    dispatch(env, "failed")
    def frozen():
        # no interior mutability: definitions reached through a shared reference cannot change
        bad = [t["s"] for t in env.P.types if t["k"] == "adt" and ("Cell<" in t.get("s", "") or "Mutex<" in t.get("s", "") or "RwLock<" in t.get("s", "")) and any(w in t.get("s", "") for w in ("TableMap", "HashMap"))]
        env.rep.cases += 1
        if bad: raise Mismatch("table definitions may change behind a shared reference: %s" % bad[0])
    env.obligation("no interior mutability in the table definitions", frozen)
