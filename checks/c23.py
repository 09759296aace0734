"""Histories of GUI editing commands against an independent model of the document (harness/gui_model.cc)."""
import gui_common, guimodel


class Check(gui_common.GuiCheck):
    ID = "C23"
    QUICK, THOROUGH = 300, 8000
    RULE = ("after every command, macro, undo, redo and jump: the core model, its lookups and trees, the proxies and the picture kept from the "
            "notifications alone equal the specification's state of that history point, with the identical objects")
    MIN = {"commands": 12000, "undos": 5000, "redos": 2000, "jumps": 1500, "macros": 1500, "states_checked": 40000, "notifications": 40000}
    ASSUMPTIONS = ["commands respect their documented preconditions (unique names, no parents on removal, no cycles)"]

    def case(self, ctx, rng, idx):
        d = guimodel.gen(rng, mission_exprs=.1)
        p = ctx.write("model.xml", guimodel.xml(d))
        steps = rng.choice([60, 150, 400]) if self.tier == "quick" else rng.choice([150, 400, 1500])
        out = self.verdict(ctx, self.drive(ctx, ["history", p, rng.randrange(1 << 40), steps]), "history of %d steps" % steps)
        ctx.sig(d.name, len(d.basic), len(d.trees), steps, hash(out) & 0xffffffff)
        ctx.sample(guimodel.xml(d))
