import importlib

MODULES = {
    "P01": "line", "P02": "line",
    "P03": "commands", "P04": "commands", "P05": "commands",
    "P06": "zdo",
    "P07": "residue",
    "P08": "lifecycle", "P09": "lifecycle", "P22": "lifecycle",
    "P10": "startup", "P11": "startup", "P12": "startup", "P20": "startup",
    "P13": "probing", "P21": "probing",
    "P14": "traffic", "P15": "incoming", "P16": "incoming", "P17": "traffic",
    "P18": "incoming", "P19": "traffic",
    "P23": "endtoend", "P24": "persist", "P25": "isolate",
}


def get(pid):
    mod = importlib.import_module("sim.props." + MODULES[pid])
    return mod.PROPS[pid]


REAL_ALL = [
    "zigpy_cc.uart (framing, Gateway, connect, detect_port)", "zigpy_cc.api",
    "zigpy_cc.zpi_object, zigpy_cc.buffalo, zigpy_cc.definition, zigpy_cc.types",
    "zigpy_cc.zigbee.application, zigpy_cc.zigbee.start_znp, zigpy_cc.zigbee.nv_items",
    "zigpy 0.25 (application, device, zdo)", "pyserial-asyncio SerialTransport",
    "asyncio (tasks, locks, timers, ready queue)",
]
REAL_API = [
    "zigpy_cc.uart", "zigpy_cc.api", "zigpy_cc.zpi_object", "zigpy_cc.buffalo",
    "zigpy_cc.definition", "zigpy_cc.types", "pyserial-asyncio SerialTransport",
    "asyncio (tasks, locks, timers, ready queue)",
]
STUB = [
    "the serial port (serial.serial_for_url) and the list of ports (comports)",
    "the adapter firmware and the mesh behind it (sim/dongle.py)",
    "clocks and select() of the event loop (sim/core.py)",
]
ASSUME = [
    "the adapter model executes MT commands one after another and answers each command "
    "at most once, as Z-Stack ZNP firmware does",
    "asyncio runs ready callbacks in the order they became ready",
    "seeded sampling: what was not sampled is not covered",
]
