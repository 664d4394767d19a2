"""Which explorations decide which property (see DESIGN.md).

T(...)  the harness runs a driver against the real library and records it, TLC
        checks the record against a trace specification; only the aspects
        listed count for the property.
M(...)  TLC explores a design model exhaustively.
R(...)  TLC generates behaviours of the specification, the harness replays the
        steps of the environment in the real library and records what happens,
        TLC checks the record.
"""


class Job:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


def T(module, cmd, checks, n=1, /, **args):
    """n: number of shards with different seeds"""
    return Job("trace", module=module, cmd=cmd, checks=checks.split(), n=n, args=args, gen=None)


def R(gen, module, cmd, checks, n=1, /, **args):
    """gen: (specification, configuration, number of behaviours, their length)"""
    job = T(module, cmd, checks, n, **args)
    job.gen = gen
    return job


def M(module, cfg, workers=2, **consts):
    return Job("mc", module=module, cfg=cfg, workers=workers, consts=consts)


TX = "prog.cycle tx.write tx.order tx.placed tx.lost"
RX = "prog.cycle rx.result rx.order rx.early rx.lost"
WIN = "win.telegram win.mirror win.flags win.open win.successor win.size win.kept"
START = "start.flush start.reset start.payload start.counter start.hw start.once start.read start.rest"
PROG = "prog.tx prog.rx prog.cycle tx.lost rx.lost"
SET = "cy.refused set.accepted set.refused o.pend o.other o.keep"
COMS = "com.alone com.inputs com.outputs com.image com.report.in com.report.out com.read"
MODS = "mod.alone mod.inputs mod.outputs mod.image com.inputs com.image empty length gap count result"
PLACE = "cy.refused iv.count iv.empty iv.analog iv.digital iv.com ov.count ov.empty ov.analog ov.digital o.len o.gap"
ERR = ("panic cy.accepted.image cy.accepted.value cy.refused new.accepted new.refused "
       "wr.refused rd.result rd.length")
NEW = "new.accepted new.refused new.kind new.reader new.writer"
TAB_ERR = "panic dec.surplus row.surplus dec.refused dec.telegram dec.short row.accepted row.refused tel.accepted tel.refused list.length list.unknown list.refused"


FREE = "panic fin.refused fin.accepted fout.refused fout.accepted fval.refused fval.accepted trip.refused"


def jobs(prop, tier):
    q = tier != "thorough"
    k = 3 if q else 24          # how much more the thorough tier samples

    def link(checks, n=5, **a):
        a = {"sessions": 40 * (1 if q else 4), "cycles": 60, **a}
        return T("TraceLink", "link", checks, n if q else 3 * n, **a)

    def links(checks):
        """The application and the modules in all moods."""
        return [R(("GenLink", "GenLink", 300 * k, 60), "TraceLink", "sched", checks, 2),
                R(("GenLink", "GenLinkLong", 40 * k, 150), "TraceLink", "sched", checks, 1),
                link(checks), link(checks, 2, cycles=300, sessions=8 * k, coms=1, others=1), link(checks, 1, rejects=30),
                link(checks, 1, big=5000, cycles=200, sessions=10), link(checks, 1, lazy=1, cycles=200, sessions=20),
                link(checks, 1, idle=70000, cycles=250, sessions=5), link(checks, 1, coms=8, others=24, cycles=100, sessions=5),
                link(checks, 1, coms=1, others=0, cycles=20000 * (1 if q else 20), sessions=1)]

    serial_mc = [M("MCSerialLink", c, 3 if q else 6) for c in
                 (("MCSerialLink", "MCSerialLinkWrap") if q else
                  ("MCSerialLinkBig", "MCSerialLinkWrap", "MCSerialLinkWrapRx"))]
    def streams(checks):
        """Long enough for every counter to overflow."""
        return [T("TraceEndless", "endless", checks, 2 if q else 16, stream=1, sessions=3, mods=1, cycles=300000 if q else 3000000),
                T("TraceEndless", "endless", checks, 1 if q else 8, stream=1, sessions=4, mods=8, backlog=2000, cycles=50000 if q else 500000)]

    if prop == "C01":
        return serial_mc + links(TX) + streams("tx.order tx.lost")
    if prop == "C02":
        return serial_mc + links(RX) + streams("rx.order rx.lost")
    if prop == "C03":
        return serial_mc + links(WIN) + [T("TraceHost", "host", WIN, 2 * k, sessions=20, steps=800)]
    if prop == "C04":
        c = START + " tx.order tx.placed tx.lost"
        return serial_mc + [T("TraceHost", "host", START, 1 * k, sessions=1500, steps=8),
                R(("GenLink", "GenLink", 200 * k, 60), "TraceLink", "sched", c, 2),
                link(c, 4, start=1, sessions=200 * k), link(c, 2, start=1, rejects=40, sessions=150 * k),
                link(START + " tx.order tx.placed", 1, coms=3), link(c, 1, start=1, big=2000, sessions=60 * k),
                link(c, 1, start=1, coms=8, others=20, sessions=30 * k),
                link("start.once", 1, idle=70000, cycles=250, sessions=5),
                link("start.once", 1, cycles=5000, sessions=1, coms=1)]
    def couplers(checks, good="product"):
        """Behaviours of the coupler's specification, replayed."""
        if good:
            return [R(("GenCoupler", "GenCouplerGood", 60 * k, 40), "TraceProduct", "replay", checks, 2, **{"as": good})]
        return [R(("GenCoupler", "GenCoupler", 60 * k, 40), "TraceCoupler", "replay", checks, 2),
                R(("GenCoupler", "GenCouplerWide", 15 * k, 30), "TraceCoupler", "replay", checks, 1)]

    def aged(checks, **a):
        """Many more cycles, writes or refusals than a 16-bit counter counts."""
        return [T("TraceCoupler", "mixed", checks, 1 if q else 8, sessions=20, events=20, age=70000, writes=20, feedback=80, mods=5, **a)]

    def tour(checks, module, *setups, **a):
        """Every transition of the exhaustive model of a coupler, performed."""
        return [R(("GenTour", f"GenTour_{c}-{'quick' if q else 'full'}", 0, 0), module, "replay", checks, 1, **a)
                for c in setups]

    def lists(checks, module="TraceCoupler", **a):
        """Every small configuration, built and run."""
        return [R(("GenConfig", f"GenConfig_{'quick' if q else 'full'}", 0, 0), module, "replay", checks, 1, **a)]

    def codec(*topics):
        return [M("MCCodec", f"MCCodec_{c}-{'quick' if q else 'full'}", 2 if q else 6) for c in topics]

    config = [M("MCConfig", "MCConfig_quick" if q else "MCConfig_full", 2 if q else 6)]

    def design(*cfgs):
        return [M("MCCoupler", f"MCCoupler_{c}-{'quick' if q else 'full'}", 3 if q else 6) for c in cfgs]

    if prop == "C05":
        return design("twoserial") + couplers(COMS) + tour(COMS, "TraceProduct", "twoserial", **{"as": "product"}) + [T("TraceProduct", "product", COMS, 4 * k, coms=100, mods=4, sessions=20, events=50),
                T("TraceProduct", "product", COMS, 2 * k, coms=60, mods=8, sessions=15, events=60),
                T("TraceProduct", "product", COMS, 1 * k, coms=100, mods=40, sessions=8, events=20),
                T("TraceProduct", "product", COMS, 1 * k, coms=40, mods=60, sessions=4, events=20),
                T("TraceProduct", "product", COMS, 1 * k, coms=100, mods=2, sessions=5, events=600)]
    if prop == "C06":
        return design("digital", "counter") + couplers(SET, None) + tour(SET, "TraceCoupler", "digital", "counter") + [T("TraceCoupler", "mixed", SET, 4 * k, sessions=50, events=30, writes=60, bad_addr=20, no_com=1),
                T("TraceCoupler", "mixed", SET, 2 * k, sessions=50, events=30, writes=60, bad_addr=20, feedback=90),
                T("TraceCoupler", "mixed", SET, 2 * k, sessions=50, events=20, writes=20, burst=40, mods=10),
                T("TraceCoupler", "mixed", SET, 1 * k, sessions=5, events=10, burst=40, mods=64, exact=1),
                T("TraceCoupler", "mixed", SET, 1 * k, sessions=2, events=800, feedback=90, mods=4),
                *aged(SET), link("tx.write tx.order tx.placed tx.lost", 2, setonly=1),
                link("tx.write tx.order tx.placed tx.lost", 1, setonly=1, big=1000, cycles=200, sessions=10)]
    if prop == "C07":
        return design("counter") + codec("analog", "counter") + couplers("cy.refused o.keep o.unused o.other", None) + tour(
                "cy.refused o.keep o.unused o.other", "TraceCoupler", "counter") + [T("TraceCoupler", "mixed", "cy.refused o.keep o.unused o.other", 3 * k, sessions=50, events=20, writes=10, feedback=70),
                T("TraceCoupler", "mixed", "cy.refused o.keep o.unused o.other", 1 * k, sessions=6, events=20, writes=10, feedback=70, mods=64, exact=1),
                T("TraceCoupler", "mixed", "cy.refused o.keep o.unused o.other", 1 * k, sessions=40, events=20, burst=30, writes=10, feedback=70),
                *aged("cy.refused o.keep o.unused o.other"), T("TraceTables", "keep", "keep keep.twice", 1 if q else 4, step=1)]
    if prop == "C08":
        return design("digital") + config + couplers(MODS) + couplers(PLACE, None) + lists(PLACE) + aged(PLACE) + [T("TraceProduct", "product", MODS, 5 * k, coms=15, mods=8, sessions=20, events=25),
                T("TraceProduct", "product", MODS, 2 * k, coms=10, mods=64, sessions=5, events=12),
                T("TraceCoupler", "mixed", PLACE, 2 * k, sessions=50, events=15, mods=30, writes=20),
                T("TraceCoupler", "mixed", PLACE, 1 * k, sessions=6, events=15, mods=64, exact=1, writes=20)]
    if prop == "C09":
        c = "rej.inputs rej.outputs twin.result twin.image twin.inputs twin.outputs twin.read"
        return design("serial") + tour(c, "TraceTwin", "serial", "digital", **{"as": "twin"}) + [
                R(("GenCoupler", "GenCoupler", 60 * k, 40), "TraceTwin", "replay", c, 3, **{"as": "twin"}),
                T("TraceTwin", "twin", c, 8 * k, sessions=25, events=60),
                T("TraceTwin", "twin", c, 1 * k, sessions=3, events=600)]
    if prop == "C10":
        return couplers(ERR, None) + lists(ERR) + tour(ERR, "TraceCoupler", "serial", "counter") + [T("TraceCoupler", "mixed", ERR, 3 * k, sessions=40, events=25, bad_image=35, bad_value=25, bad_addr=10),
                T("TraceCoupler", "mixed", ERR, 1 * k, sessions=5, events=15, bad_image=35, bad_value=2, mods=64, exact=1),
                T("TraceTables", "abuse", TAB_ERR, 1 * k, n=100),
                T("TraceTables", "images", FREE, 1 * k, n=300, bad=80),
                T("TraceTables", "rows", TAB_ERR, 1 * k, n=80, bad=40),
                T("TraceTables", "telegrams", TAB_ERR, 1 * k, n=300),
                T("TraceTables", "presets", TAB_ERR, 1),
                T("TraceTables", "params", "panic par.length par.range par.refused", 1 * k, n=60),
                T("TraceTables", "ident", TAB_ERR, 1 * k, n=5),
                T("TraceTables", "addresses", TAB_ERR, 1, n=100),
                T("TraceCoupler", "chaos", ERR, 2 * k, sessions=300),
                T("TraceCoupler", "build", ERR, 1 * k, n=300)]
    if prop == "C11":
        return config + lists(NEW) + [T("TraceCoupler", "build", NEW, 4 * k, n=400),
                T("TraceTables", "counts", "pc"),
                T("TraceTables", "params", "par.length par.refused", 1 * k, n=60),
                T("TraceCoupler", "mixed", NEW, 1 * k, sessions=100, events=1, mods=60)]
    if prop == "C12":
        return [T("TraceTables", "params", "par.range par.refused par.value", 4 * k, n=100),
                T("TraceTables", "scan", "scan.value scan.other", 1 if q else 8, full=1)]
    if prop == "C13":
        return codec("analog") + [T("TraceTables", "analog", "ai.value", 1 if q else 3, types=t, step=1)
                for t in ("ui", "ui2", "i8", "rtd", "tc", "ao")] + [
                T("TraceTables", "rows", "dec.refused dec.count dec.analog", 2 * k, n=150, sel="analog"),
                T("TraceCoupler", "mixed", "cy.refused iv.count iv.analog ov.analog", 2 * k, sessions=50, events=15, writes=10, sel="analog")]
    if prop == "C14":
        c = "bits.in bits.out sil dec.refused dec.count dec.digital row.accepted row.refused row.len row.digital row.unused"
        return codec("bits", "counter") + [T("TraceTables", "bits", c), T("TraceTables", "hertz", "panic hertz hertz.absent", 1 * k, n=400),
                T("TraceTables", "presets", "panic row.accepted row.refused row.len row.digital", 1),
                T("TraceTables", "rows", c, 3 * k, n=150, sel="digital"),
                T("TraceTables", "rows", c, 2 * k, n=150, sel="digital", bad=40),
                T("TraceCoupler", "mixed", "cy.refused cy.accepted.value iv.count iv.digital ov.digital o.pend o.unused o.len", 2 * k,
                  sessions=50, events=15, writes=40, bad_value=10, sel="digital")]
    if prop == "C15":
        return codec("analog") + [T("TraceTables", "drive", "enc.nearest enc.monotonic enc.result enc.disabled", 6 * k, n=400),
                T("TraceTables", "rows", "row.analog row.refused row.len", 2 * k, n=200, sel="analog"),
                T("TraceCoupler", "mixed", "cy.refused o.pend o.unused o.len", 2 * k, sessions=50, events=15, writes=50, sel="analog")]
    if prop == "C16":
        c = "tel.refused tel.parse tel.accepted tel.pack tel.roundtrip"
        return codec("serial") + [T("TraceTables", "telegrams", c, 4 * k, n=400),
                T("TraceTables", "rows", "dec.com dec.telegram row.accepted row.refused row.len row.com", 2 * k, n=300, sel="com", bad=20),
                T("TraceCoupler", "mixed", "cy.refused cy.accepted.image iv.com ov.com o.telegram o.len", 1 * k, sessions=40,
                  events=25, writes=20, bad_image=20, sel="com")]
    if prop == "C17":
        return [T("TraceTables", "ids", "id", 1, full=1),
                T("TraceTables", "ident", "name cat.name cat chan mod.type mod.bytes mod.values list.unknown list.refused list.order", 4 * k, n=15)]
    if prop == "C18":
        return [M("MCSerialLink", "MCSerialLinkLive" if q else "MCSerialLinkLiveBig", 3 if q else 8)] + links(PROG) + [
                link(PROG, 1, rejects=60)] + streams("tx.lost rx.lost")
    if prop == "C19":
        return config + [T("TraceTables", "addresses", "adr.split adr.merge offs padr list.length", 3 * k, n=300)]
    if prop == "C20":
        c = ("panic def dec.surplus row.surplus dec.refused dec.empty dec.com dec.telegram dec.short dec.count dec.digital dec.analog "
             "row.accepted row.refused row.len row.com row.digital row.analog row.unused mod.type mod.bytes mod.values")
        return [T("TraceTables", "defaults", c, 3 * k, n=60, bad=25)]
    if prop == "C21":
        c = ("st.map st.list st.offsets st.params st.built st.terminal panic new.refused set.refused cy.refused "
             "iv.count iv.empty iv.analog iv.digital ov.count ov.analog ov.digital o.len")
        return [T("TraceStation", "station", c, 2 * k, sessions=60, cycles=20),
                T("TraceStation", "station", c, 2 * k, sessions=150, cycles=15, mods=6),
                T("TraceStation", "station", c, 1 * k, sessions=6, cycles=400, mods=5)]
    if prop == "C22":
        c = "same.set same.write same.result same.image same.inputs same.outputs same.read"
        return [R(("GenCoupler", "GenCoupler", 60 * k, 40), "TraceSame", "replay", c, 2, **{"as": "same"}),
                T("TraceSame", "same", c, 3 * k, sessions=200, events=50),
                T("TraceSame", "same", c, 1 * k, sessions=40, events=60, mods=30),
                T("TraceSame", "same", c, 1 * k, sessions=10, events=1000, mods=4)]
    if prop == "C23":
        c = ("panic fin.refused fin.value fin.accepted fout.refused fout.value fout.accepted fval.refused fval.accepted fval.len fval.value fval.gap "
             "trip.refused trip.value")
        return config + [T("TraceTables", "images", c, 4 * k, n=400, bad=20), T("TraceTables", "images", c, 1 * k, n=60, mods=40),
                T("TraceTables", "images", c, 1 * k, n=15, mods=64), T("TraceTables", "images", c, 2 * k, n=400, mods=3, bad=80)]
    if prop == "C24":
        c = "err.new err.set err.cycle"
        t = "err.par err.dec err.enc err.tel err.list err.name err.text err.image"
        return config + design("serial") + codec("serial") + couplers(c, None) + lists(c) + tour(c, "TraceCoupler", "serial", "counter") + [
                T("TraceCoupler", "mixed", c, 2 * k, sessions=40, events=25, bad_image=35, bad_value=25, bad_addr=10),
                T("TraceCoupler", "chaos", c, 2 * k, sessions=300), T("TraceCoupler", "build", c, 1 * k, n=300),
                T("TraceTables", "images", t, 2 * k, n=300, bad=90),
                T("TraceTables", "presets", t, 1), T("TraceTables", "rows", t, 1 * k, n=80, bad=50), T("TraceTables", "telegrams", t, 1 * k, n=300),
                T("TraceTables", "params", t, 1 * k, n=60), T("TraceTables", "ident", t, 1 * k, n=5),
                T("TraceTables", "defaults", t, 1 * k, n=60, bad=40)]
    if prop == "C25":
        c = "mem.kept mem.left"
        return [M("MCSerialLink", "MCSerialLinkWrap" if q else "MCSerialLinkBig", 3 if q else 6)] + design("serial", "digital") + [
                T("TraceEndless", "endless", c, 6 * k, sessions=6, cycles=100000),
                T("TraceEndless", "endless", c, 2 * k, sessions=4, cycles=100000, mods=12),
                T("TraceEndless", "endless", c, 1 * k, sessions=6, cycles=30000, backlog=3000)]
    raise SystemExit(f"unknown property {prop}")


PROPS = [f"C{i:02}" for i in range(1, 26)]
