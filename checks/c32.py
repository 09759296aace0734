"""Fault tree diagrams during histories of GUI editing commands (harness/gui_diagram.cc)."""
import gui_common, guimodel


class Check(gui_common.GuiCheck):
    ID = "C32"
    QUICK, THOROUGH = 120, 4000
    RULE = ("after every command, macro, undo, redo and jump every open diagram is walked: the items, their events, shapes, votes, order, links, transfers and positions against the specification's "
            "state of the document; in between the diagrams are zoomed, painted, exported and double-clicked; non-trivial: a history with its diagrams' counts")
    MIN = {"diagrams": 800, "diagrams_checked": 30000, "gates_checked": 60000, "transfers_checked": 3000, "activations": 1000, "exports": 500, "exported_ids": 800, "repaints_checked": 300, "zooms": 500,
           "empty_diagrams_checked": 500}
    ASSUMPTIONS = ["formulas of the connectives the GUI offers, without complemented arguments", "the viewport of the view is a plain widget, not the OpenGL one of the main window"]

    def case(self, ctx, rng, idx):
        d = guimodel.gen(rng, trees=rng.choice([1, 1, 2, 3]), gates=rng.choice([None, 4, 8, 14]))
        p = ctx.write("model.xml", guimodel.xml(d))
        steps = rng.choice([60, 150, 300]) if self.tier == "quick" else rng.choice([150, 400, 1200])
        out = self.verdict(ctx, self.drive(ctx, ["diagrams", p, rng.randrange(1 << 40), steps]), "history of %d steps" % steps)
        ctx.sig(d.name, len(d.basic), len(d.trees), steps, hash(out) & 0xffffffff)
        ctx.sample(guimodel.xml(d))
