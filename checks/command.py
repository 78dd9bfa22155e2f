"""The command that runs a simulation or optimization, as a guarded trace.

grazer::run is interpreted together with the functions beside it in src/Grazer;
everything else is opaque: its calls appear with their receivers and arguments."""
import os
from worlds import *
from paths import *


class Command:
    def __init__(self, ctx):
        P, H = ctx.P, ctx.H
        fs = [f for f in P.functions.values() if f["q"] == "grazer::run" and f["b"] is not None]
        ctx.need(len(fs) == 1, "grazer::run not found")
        self.f = fs[0]
        here = os.path.dirname(self.f["file"])
        self.ev = Evaluator(P, H, opaque=lambda g: os.path.dirname(g["file"]) != here)
        self.s = self.ev.run(self.f["key"])
        self.effs = self.ev.effs
        self.where = "%s:%d" % (self.f["file"], self.f["l"])
        ctx.used(self.ev)

    def calls(self, *names):
        return [e for e in self.effs if e.kind == "call" and e.d.get("name") in names]

    def order(self, e):
        return self.effs.index(e)
