"""Independent codec for the TI Monitor-and-Test protocol (written from the
protocol, not from the code under test)."""
import struct

POLL, SREQ, AREQ, SRSP = 0, 1, 2, 3
SYS, MAC, NWK, AF, ZDO, SAPI, UTIL, DEBUG, APP = range(1, 10)
APP_CNF = 15
GP = 21
SOF = 0xFE

NAMES = {
    (SYS, 0): "resetReq", (SYS, 1): "ping", (SYS, 2): "version",
    (SYS, 7): "osalNvItemInit", (SYS, 8): "osalNvRead", (SYS, 9): "osalNvWrite",
    (SYS, 0x0C): "random", (SYS, 0x13): "osalNvLength", (SYS, 0x80): "resetInd",
    (AF, 0): "register", (AF, 1): "dataRequest", (AF, 2): "dataRequestExt",
    (AF, 0x80): "dataConfirm", (AF, 0x81): "incomingMsg", (AF, 0x82): "incomingMsgExt",
    (ZDO, 2): "nodeDescReq", (ZDO, 4): "simpleDescReq", (ZDO, 5): "activeEpReq",
    (ZDO, 0x21): "bindReq", (ZDO, 0x22): "unbindReq", (ZDO, 0x31): "mgmtLqiReq",
    (ZDO, 0x34): "mgmtLeaveReq", (ZDO, 0x36): "mgmtPermitJoinReq",
    (ZDO, 0x40): "startupFromApp", (ZDO, 0x4A): "extFindGroup",
    (ZDO, 0x4B): "extAddGroup",
    (ZDO, 0x82): "nodeDescRsp", (ZDO, 0x84): "simpleDescRsp", (ZDO, 0x85): "activeEpRsp",
    (ZDO, 0xA1): "bindRsp", (ZDO, 0xA2): "unbindRsp", (ZDO, 0xB1): "mgmtLqiRsp",
    (ZDO, 0xB4): "mgmtLeaveRsp", (ZDO, 0xB6): "mgmtPermitJoinRsp",
    (ZDO, 0xC0): "stateChangeInd", (ZDO, 0xC1): "endDeviceAnnceInd",
    (ZDO, 0xC4): "srcRtgInd", (ZDO, 0xC9): "leaveInd", (ZDO, 0xCA): "tcDeviceInd",
    (ZDO, 0xCB): "permitJoinInd",
    (SAPI, 4): "readConfiguration", (SAPI, 5): "writeConfiguration",
    (UTIL, 0): "getDeviceInfo", (UTIL, 0x0A): "ledControl",
    (APP_CNF, 5): "bdbStartCommissioning", (APP_CNF, 8): "bdbSetChannel",
    (APP_CNF, 0x80): "bdbComissioningNotifcation",
}
IDS = {v: k for k, v in NAMES.items()}


def fcs(body):
    x = 0
    for b in body:
        x ^= b
    return x


def frame(ctype, subsys, cmd, data=b""):
    body = bytes([len(data), (ctype << 5) | subsys, cmd]) + bytes(data)
    return bytes([SOF]) + body + bytes([fcs(body)])


def named(ctype, name, data=b""):
    s, c = IDS[name]
    return frame(ctype, s, c, data)


class Frame:
    __slots__ = ("ctype", "subsys", "cmd", "data", "t", "t0", "conn", "n", "tag")

    def __init__(self, ctype, subsys, cmd, data):
        self.ctype, self.subsys, self.cmd, self.data = ctype, subsys, cmd, data
        self.t = self.t0 = None
        self.conn = None
        self.n = None
        self.tag = None

    @property
    def name(self):
        return NAMES.get((self.subsys, self.cmd), "%d/%d" % (self.subsys, self.cmd))

    @property
    def key(self):
        return (self.ctype, self.subsys, self.cmd, bytes(self.data))

    def __repr__(self):
        return "%s %s %s" % (("POLL", "SREQ", "AREQ", "SRSP")[self.ctype & 3], self.name,
                             bytes(self.data).hex())


class Deframer:
    """Strict receiver: anything that is not a well-formed frame is recorded."""

    def __init__(self):
        self.buf = bytearray()
        self.stray = bytearray()
        self.bad = []

    def feed(self, data):
        out = []
        self.buf += data
        while self.buf:
            if self.buf[0] != SOF:
                self.stray.append(self.buf[0])
                del self.buf[0]
                continue
            if len(self.buf) < 5 or len(self.buf) < self.buf[1] + 5:
                break
            n = self.buf[1] + 5
            raw = bytes(self.buf[:n])
            del self.buf[:n]
            if fcs(raw[1:-1]) != raw[-1]:
                self.bad.append(raw)
                continue
            out.append(Frame(raw[2] >> 5, raw[2] & 0x1F, raw[3], raw[4:-1]))
        return out


def valid_frames_in(stream):
    """Every (start, end) of a substring that is a well-formed frame."""
    out = []
    n = len(stream)
    for i in range(n - 4):
        if stream[i] == SOF:
            end = i + stream[i + 1] + 5
            if end <= n and fcs(stream[i + 1:end - 1]) == stream[end - 1]:
                out.append((i, end))
    return out


def u16(x):
    return struct.pack("<H", x)


def u32(x):
    return struct.pack("<I", x)


def incoming_msg(nwk, src_ep, dst_ep, cluster, data, group=0, bcast=0, lqi=100, sec=0,
                 ts=0, seq=0):
    return frame(AREQ, AF, 0x81, struct.pack(
        "<HHHBBBBBIBB", group, cluster, nwk, src_ep, dst_ep, bcast, lqi, sec, ts, seq,
        len(data)) + data)


def incoming_msg_ext(mode, addr8, src_ep, dst_ep, cluster, data, group=0, panid=0, bcast=0,
                     lqi=100, sec=0, ts=0, seq=0):
    return frame(AREQ, AF, 0x82, struct.pack("<HHB", group, cluster, mode) + addr8
                 + struct.pack("<BHBBBBIBH", src_ep, panid, dst_ep, bcast, lqi, sec, ts, seq,
                               len(data)) + data)


def device_annce(nwk, ieee8, cap=0x8E, src=None):
    return frame(AREQ, ZDO, 0xC1, u16(nwk if src is None else src) + u16(nwk) + ieee8
                 + bytes([cap]))
