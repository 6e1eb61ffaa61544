"""Design.tla (a manager with three children: restorable, non-restorable, no_save and dynamic settings, layout, exports, own settings, designs and templates on disk) model checked: a load restores what was saved, only needed writes are made, modified is clean after a save or load, templates are never written; random histories of puts, device drifts, layout and export edits, saves, loads, failing saves and loads, resets replayed into a real ManagerController with real children and files in a scratch directory, comparing settings, writes, files, design choices and modified after each step."""


def run(ck):
    ck.mc("Design", ck.q("Design_mcq.cfg", "Design_mc.cfg"))
    ck.sim("Design", "Design_sim.cfg", "design", ck.q(700, 12000), 25)
