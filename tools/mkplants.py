"""mkplants.py FILE [ID...]: prepares the planted bugs of a batch file under /tmp/plant."""
import json
import os
import sys

HEAD = """import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mini import *
"""

EDIT = """import sys
for f, a, b in %r:
    with open(f) as h: s = h.read()
    if s.count(a) != 1:
        sys.exit("%%s: %%d matches for %%r" %% (f, s.count(a), a))
    with open(f, "w") as h: h.write(s.replace(a, b))
"""

env = {"P": []}


def plant(id, prop, edits, demo, needs, breaks):
    env["P"].append((id, prop, edits, demo, needs, breaks))


env["plant"] = plant
for n, v in dict(UART="zigpy_cc/uart.py", API="zigpy_cc/api.py",
                 APP="zigpy_cc/zigbee/application.py", ZPI="zigpy_cc/zpi_object.py",
                 START="zigpy_cc/zigbee/start_znp.py", NVI="zigpy_cc/zigbee/nv_items.py",
                 BUF="zigpy_cc/buffalo.py", DEFN="zigpy_cc/definition.py",
                 TYPES="zigpy_cc/types.py", CONF="zigpy_cc/config.py").items():
    env[n] = v
exec(open(sys.argv[1]).read(), env)
want = sys.argv[2:]
for id, prop, edits, demo, needs, breaks in env["P"]:
    if want and id not in want:
        continue
    d = "/tmp/plant/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/edit.py", "w").write(EDIT % (edits,))
    open(d + "/demo.py", "w").write(HEAD + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    print(id)
