"""mktable.py: writes sim/mt_table.json, the synchronous commands of the protocol with
their parameters, from the definitions of the commit the properties were written for.
Not run by any check: the table is the reference the checks compare with."""
import json
import os
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from zigpy_cc.definition import Definition  # noqa: E402
from zigpy_cc.types import CommandType, ParameterType  # noqa: E402

CAN_WRITE = {"UINT8", "UINT16", "UINT32", "IEEEADDR", "BUFFER", "LIST_UINT8", "LIST_UINT16"}
CAN_READ = CAN_WRITE | {"BUFFER8", "BUFFER16", "BUFFER18", "BUFFER32", "BUFFER42", "BUFFER100",
                        "INT8", "LIST_NEIGHBOR_LQI"}
SIZED = {"BUFFER", "LIST_UINT8", "LIST_UINT16", "LIST_NEIGHBOR_LQI"}
SKIP = {"startupFromApp", "bdbStartCommissioning", "osalNvRead", "osalNvLength", "osalNvWrite",
        "readConfiguration", "extFindGroup", "ledControl", "random", "ping"}


def params(ps):
    return [[p["name"], ParameterType(p["parameterType"]).name] for p in ps]


def fine(ps, can):
    names = [n for n, _ in ps]
    for i, (n, t) in enumerate(ps):
        if t not in can or len(set(names)) != len(names):
            return False
        if t in SIZED and (i == 0 or ps[i - 1][1] not in ("UINT8", "UINT16")):
            return False
    return True


out = []
for s, cmds in sorted(Definition.items()):
    for c in cmds:
        if c["type"] != CommandType.SREQ or c["name"] in SKIP:
            continue
        req, rsp = params(c["request"]), params(c["response"])
        if fine(req, CAN_WRITE) and fine(rsp, CAN_READ):
            out.append([int(s), c["ID"], c["name"], req, rsp])
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "mt_table.json")
with open(path, "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(x) for x in out) + "\n]\n")
print(len(out), "commands")
