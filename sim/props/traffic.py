"""P14 (sends unaltered), P17 (never flooded), P19 (truthful outcomes), and the
incoming side: P15 (messages), P16 (announcements), P18 (the light)."""
from . import ASSUME, REAL_ALL, STUB
from . import flow
from .appkit import gen_base, gen_link

CALM = ("stall", "short", "block", "noise", "noise")
ROUGH = CALM + ("unplug", "away", "drop", "drop", "hang", "openfail")
ALL = flow.SENDS_ALL


class Sends:
    REAL = REAL_ALL
    STUB = STUB
    SIMPLE = flow.SIMPLE
    ASSUME = ASSUME + [
        "answers carry no number on this interface: while the answer to a send that was "
        "given up may still come, the next answer of the same kind is not judged",
        "requests the driver supports (the eight management requests listed; application "
        "payloads up to 240 and 230 bytes)"]

    def execute(self, run):
        plan = run.plan
        f = flow.Flow(run, devices=3)
        if not f.begin([e for e in plan["events"] if e["e"] != "shutdown"],
                       form=plan["cfg"].get("form", False), ops=plan["ops"]):
            return
        for e in plan["events"]:
            if e["e"] == "shutdown":
                f.w.at(f.t0 + e["t"], f.shutdown, e["again"])
        f.finish()
        run.nontrivial = len(f.frames) > 1
        f.w.probes["sends"] += len(f.recs)
        f.w.probes["refused"] += sum(1 for x in f.read_of.values() if x[1])
        self.judge(f)


class P14(Sends):
    id = "P14"
    RUNS = {"quick": 6000, "thorough": 400000}
    RULE = ("Seeded: 1 to 16 different sends (unicast, group, broadcast, management requests, "
            "permit join) with boundary and random values, issued together or over time, "
            "refused, lost, delayed, cancelled at small offsets, retried; stalls, short and "
            "blocked writes, connection losses in some runs. Non-trivial: two sends or more "
            "reached the line.")

    def gen(self, r, tier, i):
        cfg = dict(gen_link(r), form=r.random() < 0.1)
        n = r.choice((1, 2, 4, 8, 16)) if r.random() > 0.004 else r.choice((70, 150, 300))
        kinds = r.choice((ALL, ALL, ("af",), ("group", "bcast", "af"), tuple(flow.KINDS)))
        ops = flow.gen_sends(r, n, kinds, r.choice((0.0, 0.002, 0.05, 0.5)), devices=3,
                             cancels=r.choice((0.0, 0.15, 0.5)), base=gen_base(r, cfg))
        top = max([o["t"] for o in ops] or [0]) + 2
        return {"cfg": cfg, "ops": ops,
                "events": flow.gen_faults(r, ROUGH if r.random() < 0.3 else CALM, top,
                                          base=cfg["base"])}

    def judge(self, f):
        flow.judge_bytes(f)


class P19(Sends):
    id = "P19"
    RUNS = {"quick": 6000, "thorough": 400000}
    RULE = ("Seeded: 1 to 14 sends as for P14 with more refusals, lost and late answers, "
            "hanging adapters, connection losses before, during and after sends, lost device "
            "replies, unsolicited traffic, the driver stopped and started again. Non-trivial: two sends or more reached the line.")

    def gen(self, r, tier, i):
        cfg = dict(gen_link(r), form=r.random() < 0.1)
        n = r.choice((1, 2, 3, 6, 14)) if r.random() > 0.004 else r.choice((70, 150, 300))
        kinds = r.choice((ALL, ALL, ("af",), ("ncp", "permitall", "permit"),
                          tuple(flow.KINDS)))
        ops = flow.gen_sends(r, n, kinds, r.choice((0.0, 0.01, 0.3, 2.0)), devices=3,
                             cancels=r.choice((0.0, 0.0, 0.2)), plain=0.2, tries=0.15,
                             base=gen_base(r, cfg))
        top = max([o["t"] for o in ops] or [0]) + 2
        ev = flow.gen_faults(r, ROUGH, top, most=4, base=cfg["base"])
        if r.random() < 0.2:
            # stopped, and sometimes started again
            again = r.choice((None, 0.0, 0.3, 2.0))
            if again is not None:
                ev = [e for e in ev if e["e"] in CALM]
            ev.append({"e": "shutdown", "t": round(r.random() * top * 0.8, 4),
                       "again": again})
        return {"cfg": cfg, "ops": ops, "events": ev}

    def judge(self, f):
        flow.judge_truth(f)


class P17(Sends):
    id = "P17"
    RUNS = {"quick": 6000, "thorough": 300000}
    RULE = ("Seeded: 2 to 40 sends, mostly broadcasts and group messages, issued together or "
            "in waves, refused, lost, cancelled while waiting or settling, across "
            "reconnections. Non-trivial: two sends or more reached the line.")

    def gen(self, r, tier, i):
        cfg = gen_link(r)
        n = r.choice((2, 5, 12, 24)) if cfg["product"] != 1 else r.choice((8, 24, 40))
        if r.random() < 0.004:
            n = r.choice((70, 150, 300))
        kinds = r.choice((("group", "bcast"), ("group", "bcast", "permitall", "ncp"),
                          ("group", "bcast", "af", "node"), ALL, ("group", "bcast", "ncp")))
        ops = flow.gen_sends(r, n, kinds, r.choice((0.0, 0.0, 0.004, 0.1)), devices=3,
                             cancels=r.choice((0.0, 0.2, 0.5)), tries=0.03, plain=0.5)
        top = max([o["t"] for o in ops] or [0]) + 2
        ev = []
        if r.random() < 0.4:
            # a wave before and one after a reconnection
            ev = [{"e": r.choice(("drop", "unplug", "away")), "d": r.choice((0.5, 3.0, 6.0)),
                   "t": round(r.random() * top, 4)}]
            cut = r.choice((5.5, 6.0, 6.3, 7.0, 12.0))
            for o in ops[len(ops) // 2:]:
                o["t"] = round(o["t"] + ev[0]["t"] + ev[0]["d"] * r.choice((0, 1)) + cut, 4)
        return {"cfg": dict(cfg, form=r.random() < 0.1), "ops": ops,
                "events": ev + flow.gen_faults(r, CALM + ("hang",), top, most=2)}

    def judge(self, f):
        flow.judge_places(f)
        run = f.run
        for i, rec in f.recs.items():
            run.check(rec.done, "starved", lambda: "%s (op %d, called %.4f) never got its turn"
                      % (rec.op["k"], i, rec.t0))
            if rec.done and rec.cancelled is None and not f.faults.losses:
                run.check(bool(f.frames.get(i)), "starved",
                          lambda: "%s (op %d, called %.4f) ended with %s and never got its turn"
                          % (rec.op["k"], i, rec.t0, rec.outcome()))


PROPS = {"P14": P14(), "P17": P17(), "P19": P19()}
