"""Layout.tla (children with typed source and sink ports, sinks that come and go or cannot be written, layouts put in part or whole, saved designs) model checked: hiding cuts exactly what had to do with the hidden child; random behaviours replayed into a real ManagerController with real ChildParts, comparing the layout table and every sink after each step."""


def run(ck):
    ck.mc("Layout", ck.q("Layout_mc.cfg", "Layout_mc_thorough.cfg"))
    ck.sim("Layout", "Layout_sim.cfg", "layout", ck.q(2500, 40000), 25)
