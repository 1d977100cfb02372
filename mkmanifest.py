"""Writes MANIFEST.json from properties.jsonl and the list of finished checks."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

NOT_APPLICABLE = {
    "N01": "A pure function of its input: no time, task, I/O or fault can change its result, so "
           "a simulated schedule decides nothing about it. (The commands that occur in the "
           "simulated runs are checked byte for byte against an independent codec there.)",
    "N02": "A pure function evaluated once before anything runs: there is no schedule, clock, "
           "I/O or fault for a simulator to control.",
}
NOT_YET = {i: "The check is not finished yet." for i in
           ()}
NOTE = ("Seeded search, not exhaustive: a violation on a schedule, fault sequence or input not "
        "generated can remain. Trusts the simulator (virtual clock and event loop, serial "
        "port), the adapter model and the oracle, all written from the protocol "
        "documentation; asyncio's own loop logic, pyserial-asyncio, zigpy and all of zigpy_cc "
        "run unmodified.")

TECH_BY = {
    "P01": "deterministic simulation: seeded byte streams and read splits, delivery compared "
           "with an independent deframer",
    "P02": "deterministic simulation with line damage: delivery compared with the frames the "
           "line carried intact",
    "P03": "deterministic simulation: order and overlap of commands on the simulated line",
    "P04": "deterministic simulation with refusals, losses and cancellations: result of each "
           "command against the answer that belongs to it",
    "P05": "deterministic simulation with silent adapters and lost lines: bounded-time "
           "progress in virtual time",
    "P06": "deterministic simulation: replies handed up against requests on the line, tagged",
    "P07": "deterministic simulation: timers, tasks and futures left after mixed fault "
           "histories and a quiet period in virtual time",
    "P08": "deterministic simulation with connection losses at chosen loop iterations: "
           "progress within 180 simulated seconds after faults stop",
    "P09": "deterministic simulation with shutdown at chosen loop iterations: no I/O "
           "afterwards",
    "P10": "deterministic simulation with host crashes and power loss: durable state of the "
           "adapter model against the configuration",
    "P11": "deterministic simulation of restart histories: no reset, write or formation at a "
           "configured adapter",
    "P12": "deterministic simulation: registrations at the adapter model after startup under "
           "unsolicited traffic",
    "P13": "deterministic simulation of ports and peers: result, duration and residue of "
           "probes",
    "P14": "deterministic simulation: every send command on the line against the calls, by an "
           "independent encoder",
    "P15": "deterministic simulation: messages handed up against frames read, by an "
           "independent encoder",
    "P16": "deterministic simulation of device histories against a table of who has which "
           "address",
    "P17": "deterministic simulation: sends in progress counted over simulated time",
    "P18": "deterministic simulation: light commands on the line against the reports read",
    "P19": "deterministic simulation with refusals, losses and disconnections: outcome of each "
           "send against the adapter's answer",
    "P20": "deterministic simulation with failing steps: bounded duration and truthful "
           "outcome of startup",
    "P24": "deterministic simulation of several lives of the host process over one device "
           "database, ended by crashes: device table after each start",
    "P25": "deterministic simulation of several drivers in one process: history of one of "
           "them, executed alone and together with the others from the same initial state",
    "P21": "deterministic simulation of hot-plugged ports: settings and choice of every open",
    "P22": "deterministic simulation: first bytes and times on every connection",
    "P23": "deterministic simulation of whole conversations (zigpy above, devices below) "
           "with connection losses",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NOT_APPLICABLE or i in NOT_YET:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i) or NOT_YET[i]})
            continue
        cmd = "%s check.py --property %s" % (PY, i)
        checks.append({
            "property": i, "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH_BY[i], "level": "exploration", "level_note": NOTE})
    doc = {"version": 1,
           "setup_cmd": PY + " -c 'import serial, serial_asyncio, zigpy'",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam (event loop, clock, serial ports, list of "
                    "ports) already exists in asyncio and pyserial. Every check imports the "
                    "code from /repo's working tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
