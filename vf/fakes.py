"""Emulated display hardware behind the two vendor libraries (which are not installed here).

Each fake module records every call that reaches the device, can be told to fail at a given call, and
interprets the calls: what matters to the monitors is what the emulated mirrors show, and when they
change, not which calls produced it."""
import importlib, sys, types
import numpy as np


class DeviceError(Exception):
    pass


class Injected(DeviceError):
    """a fault put there by the harness"""


class Recorder:
    """call log and fault injection shared by everything that talks to one device"""
    def __init__(self):
        self.calls, self.fail_at, self.count = [], None, 0

    def call(self, name, *args):
        self.count += 1
        self.calls.append((name, args))
        if self.fail_at is not None and self.count == self.fail_at:
            raise Injected(f"{name} failed")

    def arm(self, k):
        self.count, self.fail_at = 0, k

    def disarm(self):
        self.fail_at = None


# ------------------------------------------------------------------------------------------------ ALP
def alp_module(width=24, height=14, memory=12, rec=None):
    m = types.ModuleType("ALP4")
    names = ["ALP_DEFAULT", "ALP_ENABLE", "ALP_PROJ_MODE", "ALP_MASTER", "ALP_SLAVE", "ALP_PROJ_INVERSION", "ALP_PROJ_STEP", "ALP_BIN_MODE", "ALP_BIN_NORMAL",
             "ALP_BIN_UNINTERRUPTED", "ALP_TRIGGER_EDGE", "ALP_EDGE_FALLING", "ALP_EDGE_RISING", "ALP_MIN_PICTURE_TIME", "ALP_PICTURE_TIME", "ALP_PICNUM", "ALP_BITPLANES",
             "ALP_DEV_DISPLAY_HEIGHT", "ALP_DEV_DISPLAY_WIDTH", "ALP_AVAIL_MEMORY", "ALP_SEQ_REPEAT", "ALP_BITNUM", "ALP_DATA_FORMAT", "ALP_SYNCH_POLARITY",
             "ALP_LEVEL_HIGH", "ALP_LEVEL_LOW", "ALP_MIN_ILLUMINATE_TIME", "ALP_PROJ_STATE", "ALP_PROJ_IDLE", "ALP_PROJ_ACTIVE", "ALP_DATA_MSB_ALIGN"]
    for i, n in enumerate(names):
        setattr(m, n, 0 if n == "ALP_DEFAULT" else 2000 + i)
    m.devices = []
    m.rec = rec or Recorder()
    m.MIN = {m.ALP_BIN_NORMAL: 70, m.ALP_BIN_UNINTERRUPTED: 44}

    class ALP4:
        """the Python interface of ALP4lib over an emulated device"""
        def __init__(self, version="4.3", libDir=None):
            self.version = version
            self.rec = m.rec
            self.alive = False
            self._lastDDRseq = None
            self._reset()
            m.devices.append(self)

        def _reset(self):
            self.seqs, self.next_id, self.running = {}, 1, None
            self.mode, self.edge, self.inversion = m.ALP_MASTER, m.ALP_EDGE_FALLING, False
            self.shown, self.index, self.most, self.loop, self.gap = None, None, 0, True, False

        def _need(self):
            if not self.alive: raise DeviceError("ALP_NOT_READY: no device allocated")

        def _seq(self, SequenceId):
            sid = self._lastDDRseq if SequenceId is None else getattr(SequenceId, "value", SequenceId)
            if sid not in self.seqs: raise DeviceError("ALP_PARM_INVALID: no such sequence")
            return sid, self.seqs[sid]

        def _idle(self):
            if self.running is not None: raise DeviceError("ALP_NOT_IDLE")

        def Initialize(self, DeviceNum=None):
            self.rec.call("Initialize")
            self._reset(); self.alive = True; self._lastDDRseq = None
            self.nSizeX, self.nSizeY = width, height

        def Free(self):
            self.rec.call("Free"); self._need(); self._idle()
            self._reset(); self.alive = False

        def DevInquire(self, inquireType):
            self.rec.call("DevInquire", inquireType); self._need()
            if inquireType == m.ALP_DEV_DISPLAY_WIDTH: return width
            if inquireType == m.ALP_DEV_DISPLAY_HEIGHT: return height
            if inquireType == m.ALP_AVAIL_MEMORY: return memory - sum(s["n"] for s in self.seqs.values())
            raise DeviceError("ALP_PARM_INVALID: inquiry")

        def DevControl(self, controlType, value):
            self.rec.call("DevControl", controlType, value); self._need(); self._idle()
            if controlType == m.ALP_TRIGGER_EDGE and value in (m.ALP_EDGE_RISING, m.ALP_EDGE_FALLING, m.ALP_DEFAULT):
                self.edge = m.ALP_EDGE_FALLING if value == m.ALP_DEFAULT else value
            else: raise DeviceError("ALP_PARM_INVALID: device control")

        def ProjControl(self, controlType, value):
            self.rec.call("ProjControl", controlType, value); self._need(); self._idle()
            if controlType == m.ALP_PROJ_MODE and value in (m.ALP_MASTER, m.ALP_SLAVE): self.mode = value
            elif controlType == m.ALP_PROJ_INVERSION and value in (m.ALP_ENABLE, m.ALP_DEFAULT): self.inversion = value == m.ALP_ENABLE
            else: raise DeviceError("ALP_PARM_INVALID: projection control")

        def SeqAlloc(self, nbImg=1, bitDepth=1):
            self.rec.call("SeqAlloc", nbImg, bitDepth); self._need()
            if nbImg < 1 or bitDepth < 1: raise DeviceError("ALP_PARM_INVALID")
            if sum(s["n"] for s in self.seqs.values()) + nbImg > memory: raise DeviceError("ALP_MEMORY_FULL")
            sid, self.next_id = self.next_id, self.next_id + 1
            self.seqs[sid] = {"n": int(nbImg), "depth": bitDepth, "bin": m.ALP_BIN_NORMAL, "time": 1000, "data": None}
            self._lastDDRseq = sid
            self.most = max(self.most, len(self.seqs))
            return sid

        def SeqControl(self, controlType, value, SequenceId=None):
            self.rec.call("SeqControl", controlType, value); self._need()
            sid, s = self._seq(SequenceId)
            if self.running == sid: raise DeviceError("ALP_SEQ_IN_USE")
            if controlType == m.ALP_BIN_MODE and value in (m.ALP_BIN_NORMAL, m.ALP_BIN_UNINTERRUPTED): s["bin"] = value
            else: raise DeviceError("ALP_PARM_INVALID: sequence control")

        def SeqInquire(self, inquireType, SequenceId=None):
            self.rec.call("SeqInquire", inquireType); self._need()
            sid, s = self._seq(SequenceId)
            if inquireType == m.ALP_MIN_PICTURE_TIME: return m.MIN[s["bin"]]
            if inquireType == m.ALP_PICTURE_TIME: return s["time"]
            if inquireType == m.ALP_PICNUM: return s["n"]
            if inquireType == m.ALP_BITPLANES: return s["depth"]
            raise DeviceError("ALP_PARM_INVALID: sequence inquiry")

        def SetTiming(self, SequenceId=None, illuminationTime=None, pictureTime=None, synchDelay=None, synchPulseWidth=None, triggerInDelay=None):
            self.rec.call("SetTiming", pictureTime); self._need()
            sid, s = self._seq(SequenceId)
            if self.running == sid: raise DeviceError("ALP_SEQ_IN_USE")
            t = 1000 if pictureTime in (None, m.ALP_DEFAULT) else pictureTime
            if t < m.MIN[s["bin"]]: raise DeviceError("ALP_PARM_INVALID: picture time")
            s["time"] = t

        def SeqPut(self, imgData, SequenceId=None, PicOffset=0, PicLoad=0, dataFormat="Python"):
            self.rec.call("SeqPut"); self._need()
            sid, s = self._seq(SequenceId)
            a = np.array(imgData).ravel()
            pics = s["n"] - PicOffset if PicLoad == 0 else PicLoad
            if a.size != pics * width * height: raise DeviceError(f"ALP_PARM_INVALID: {a.size} bytes for {pics} pictures")
            on = (a.astype(np.uint8) & 0x80) != 0
            if s["data"] is None: s["data"] = [None] * s["n"]
            for k in range(pics):
                s["data"][PicOffset + k] = on[k * width * height:(k + 1) * width * height].reshape(height, width).copy()

        def Run(self, SequenceId=None, loop=True):
            self.rec.call("Run"); self._need()
            sid, s = self._seq(SequenceId)
            self.running, self.loop, self.index = sid, loop, None
            if s["data"] is None or any(d is None for d in s["data"]): raise DeviceError("pictures without data")
            if self.mode == m.ALP_MASTER: self.index = 0
            self.gap = s["bin"] != m.ALP_BIN_UNINTERRUPTED

        def Halt(self):
            self.rec.call("Halt"); self._need()
            self.running = None; self.index = None

        def Wait(self):
            self.rec.call("Wait"); self._need()

        def FreeSeq(self, SequenceId=None):
            self.rec.call("FreeSeq"); self._need()
            sid, s = self._seq(SequenceId)
            if self.running == sid: raise DeviceError("ALP_SEQ_IN_USE")
            del self.seqs[sid]
            if self._lastDDRseq == sid: self._lastDDRseq = None

        # --- what an observer sees
        def display(self):
            """the mirrors now; None when dark / undefined"""
            if not self.alive or self.running is None or self.index is None: return None
            img = self.seqs[self.running]["data"][self.index]
            return ~img if self.inversion else img.copy()

        def frames_shown_freely(self):
            """how the display changes without any trigger: the distinct frames master mode goes through"""
            if self.running is None or self.mode != m.ALP_MASTER: return []
            d = self.seqs[self.running]["data"]
            return [~f if self.inversion else f.copy() for f in d] if self.loop else []

        def edge_event(self, rising):
            """an edge on the trigger input"""
            if not self.alive or self.running is None or self.mode != m.ALP_SLAVE: return
            if rising != (self.edge == m.ALP_EDGE_RISING): return
            n = self.seqs[self.running]["n"]
            k = 0 if self.index is None else self.index + 1
            if k >= n:
                if not self.loop: return
                k = 0
            self.index = k
    m.ALP4 = ALP4
    return m


# -------------------------------------------------------------------------------------------- Luxbeam
def luxbeam_module(cols=24, rows=14, slots=2000, rec=None):
    m = types.ModuleType("Luxbeam")
    for i, n in enumerate(["SEQ_CMD_RUN", "SEQ_CMD_RESET"]): setattr(m, n, 101 + i)
    m.ENABLE, m.DISABLE = 1, 0
    m.TRIG_MODE_NEGATIVE_EDGE, m.TRIG_MODE_POSITIVE_EDGE, m.TRIG_MODE_LOW_LEVEL, m.TRIG_MODE_HIGH_LEVEL = 0, 1, 2, 3
    m.TRIG_SOURCE_SOFTWARE, m.TRIG_SOURCE_ELECTRICAL, m.TRIG_SOURCE_OPTICAL = 1, 2, 4
    m.devices = []
    m.rec = rec or Recorder()

    class Expr:
        def __init__(self, fn): self.fn = fn
        def __add__(self, o): return Expr(lambda e, s=self, o=o: s.fn(e) + (o.fn(e) if isinstance(o, Expr) else o))
        __radd__ = __add__
        def __sub__(self, o): return Expr(lambda e, s=self, o=o: s.fn(e) - (o.fn(e) if isinstance(o, Expr) else o))

    def val(v, env): return v.fn(env) if isinstance(v, Expr) else v

    class LuxbeamSequencer:
        def __init__(self):
            self.block = self.program = []
            self.vars = 0

        def assign_var_reg(self, regno=0):
            return Expr(lambda env, r=regno: env["reg"].get(r, 0))

        def _loop(self, head):
            outer, inner = self.block, []
            outer.append((*head, inner))
            self.block = inner
            return outer

        def jump_loop_iter(self, *a, **k):
            outer = self._loop(("forever",))
            yield "jump"
            self.block = outer

        def range_loop_iter(self, start, stop, *a, **k):
            self.vars += 1
            name = f"v{self.vars}"
            outer = self._loop(("range", name, start, stop))
            yield "range", Expr(lambda env, n=name: env[n])
            self.block = outer

        def load_global(self, inum, wait=0): self.block.append(("load", inum))
        def reset_global(self, wait=0): self.block.append(("reset",))
        def trig(self, mode, source, timeout=0): self.block.append(("trig", mode, source))
        def wait(self, *a): pass
        def dumps(self): return ("program", self.program)

    class Luxbeam:
        def __init__(self, ip=None, dmd_type=None, inverse=False, timeout=None, **kw):
            m.rec.call("connect", ip)
            self.rec = m.rec
            self.ip, self.inverse, self.timeout = ip, bool(inverse), timeout
            self.images, self.env, self.program = {}, {"reg": {}}, None
            self.run, self.reset, self.sync = False, False, 0
            self.latch, self.mirrors, self.it, self.waiting, self.changes, self.runaway = None, None, None, None, 0, False
            m.devices.append(self)

        @property
        def rows(self):
            self.rec.call("rows"); return rows

        @property
        def cols(self):
            self.rec.call("cols"); return cols

        def load_sequence(self, seq):
            self.rec.call("load_sequence")
            if not (isinstance(seq, tuple) and seq[0] == "program"): raise DeviceError("not a sequencer program")
            self.program = seq[1]; self._restart()

        def set_sequencer_reg(self, reg_no, reg_val):
            self.rec.call("set_sequencer_reg", reg_no, reg_val)
            self.env["reg"][reg_no] = int(reg_val)

        def set_sequencer_state(self, cmd, state):
            self.rec.call("set_sequencer_state", cmd, state)
            if cmd == m.SEQ_CMD_RUN: self.run = bool(state)
            elif cmd == m.SEQ_CMD_RESET:
                self.reset = bool(state)
                if self.reset: self._restart()
            else: raise DeviceError("unknown command")
            self._go()

        def load_image(self, inum, image):
            self.rec.call("load_image", inum)
            a = np.array(image)
            if a.shape != (rows, cols): raise DeviceError("wrong image size")
            if not 0 <= inum < slots: raise DeviceError("no such image slot")
            self.images[inum] = a.astype(bool)

        def set_software_sync(self, level):
            self.rec.call("set_software_sync", level)
            old, self.sync = self.sync, int(level)
            if old != self.sync: self.edge_event(self.sync > old, m.TRIG_SOURCE_SOFTWARE)

        # --- sequencer
        def _restart(self):
            self.it = self._exec(self.program) if self.program is not None else None
            self.waiting = None

        def _exec(self, block):
            for op in block:
                if op[0] == "load":          # copies the image as it is now to the memory of the mirrors
                    n = val(op[1], self.env); img = self.images.get(n)
                    self.latch = ("undefined", n) if img is None else img.copy()
                    yield "step"
                elif op[0] == "reset":
                    if self.latch is not None:
                        self.mirrors = self.latch
                        self.changes += 1
                    yield "step"
                elif op[0] == "trig": yield ("trig", op[1], op[2])
                elif op[0] == "forever":
                    while True:
                        yield "step"
                        yield from self._exec(op[1])
                elif op[0] == "range":
                    _, name, a, b, inner = op
                    k = val(a, self.env)
                    while k < val(b, self.env):
                        self.env[name] = k
                        yield "step"
                        yield from self._exec(inner)
                        k += 1

        def _go(self):
            for _ in range(5000):
                if not self.run or self.reset or self.it is None or self.waiting is not None: return
                w = next(self.it, None)
                if w is None: self.it = None; return
                if w != "step": self.waiting = w; return
            self.runaway = True

        def edge_event(self, rising, source):
            if self.waiting is None or not self.run or self.reset: return
            _, mode, sources = self.waiting
            if not (sources & source): return
            if mode not in (m.TRIG_MODE_POSITIVE_EDGE, m.TRIG_MODE_NEGATIVE_EDGE): raise DeviceError("level triggers are not emulated")
            if rising != (mode == m.TRIG_MODE_POSITIVE_EDGE): return
            self.waiting = None
            self._go()

        def display(self):
            if self.mirrors is None or isinstance(self.mirrors, tuple): return self.mirrors
            return ~self.mirrors if self.inverse else self.mirrors.copy()
    m.Luxbeam, m.LuxbeamSequencer = Luxbeam, LuxbeamSequencer
    return m


# ------------------------------------------------------------------------------------------- loading
def load(alp=None, lux=None):
    """a fresh pySLM2.util with these driver libraries (None: not installed)"""
    for name, mod in (("ALP4", alp), ("Luxbeam", lux)):
        if mod is None: sys.modules[name] = None         # import raises ImportError
        else: sys.modules[name] = mod
    for k in [k for k in sys.modules if k == "pySLM2.util" or k.startswith("pySLM2.util.")]: del sys.modules[k]
    return importlib.import_module("pySLM2.util")
