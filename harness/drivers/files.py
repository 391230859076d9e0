"""C20: record and model files written in every layout, and what the readers make of them."""
import os
from pathlib import Path

from pystrata import motion, tools
from rec import F, FS, Trace, WORK, call, n, rng

tr = Trace()
r = rng("files")
path = Path(WORK) / "record.dat"


def chars(lines):
    return [list(x) for x in lines]


def number(width):
    """A number of at most `width` characters."""
    while True:
        x = r.choice([0.0, r.gauss(0, 1), r.gauss(0, 1e-4), r.gauss(0, 300), r.uniform(-9.9999, 9.9999)])
        t = r.choice([f"{x:.3E}", f"{x:.4E}".replace("E-0", "E-").replace("E+0", "E+"), f"{x:.4f}", f"{x:.2f}", f"{x:.6e}", f"{x:.0f}", f".{r.randrange(1000):03d}"])
        if len(t) <= width:
            return t


def write(lines, end):
    path.write_text("".join(x + "\n" for x in lines[:-1]) + lines[-1] + end)


def scale():
    return r.choice([None, 1.0, 2.5, -1.0, 1 / 981.0, 3])


def load(fn, s):
    m, raised = call(lambda: fn(r.choice([str, Path])(path)) if s is None else fn(path, scale=s))
    got = {}
    if not raised:
        got, raised = call(lambda: {"desc": m.description, "dt": F(m.time_step), "accels": FS(m.accels), "npts": len(m.times)})
    return got or {}, raised


def at2():
    count = r.choice([1, 2, 3, 5, 16, r.randint(1, 60), r.randint(1, 60) if r.random() < 0.9 else r.randint(100, 400)])
    vals = [number(15) for _ in range(count)]
    per = r.choice([1, 4, 5, 8, 0])
    lines, at = [], 0
    while at < count:
        k = per or r.randint(1, 7)
        sep = r.choice(["  ", " ", "\t"])
        lead = r.choice(["", " ", "   "])
        lines.append(lead + sep.join(vals[at:at + k]) + r.choice(["", "", " "]))
        at += k
    desc = r.choice(["KOBE 01/16/95 2046, NISHI-AKASHI, 090 (CUE)", "A record 1 2 3", "x"])
    dt = r.choice(["0.0100", ".005", "0.02", "1.0E-2", "0.004883"])
    head = ["PEER NGA STRONG MOTION DATABASE RECORD", r.choice(["", "  "]) + desc, "ACCELERATION TIME HISTORY IN UNITS OF G", f"{count}    {dt}    NPTS, DT"]
    write(head + lines, r.choice(["\n", "", "\n\n"]))
    s = scale()
    got, raised = load(motion.TimeSeriesMotion.load_at2_file, s)
    tr.ev("at2", raised=raised, lines=chars(lines), values=vals, desc=desc, dt=F(float(dt)), scale=F(1 if s is None else s), got=got)


def smc():
    count = r.choice([1, 2, 7, 8, 9, 16, r.randint(1, 60), r.randint(1, 60) if r.random() < 0.9 else r.randint(100, 400)])
    vals = [number(10) for _ in range(count)]
    per = r.choice([8, 8, 8, 5, 1])
    lines = ["".join(v.rjust(10) for v in vals[i:i + per]) for i in range(0, count, per)]
    ncom = r.choice([0, 1, 3, 8])
    comments = ["|", "| Converted using program evt2smc 2011/08/25", "| 1 2 3", "*"]
    comments = [r.choice(comments) for _ in range(ncom)]
    ints = [r.choice([-32768, 0, 1, 2011]) for _ in range(48)]
    ints[15], ints[16] = ncom, count
    sps = r.choice(["2.0000000E+02", "1.0000000E+02", "5.0000000E+01", "1.2345000E+02"])
    flts = [r.choice(["1.7000000E+38", "-7.7932999E+01", "0.0000000E+00", "6.0000000E+00"]) for _ in range(50)]
    flts[1] = sps
    st, comp = r.choice([("VA: Reston; Fire Station #25", "360"), ("Diablo", "UP"), ("x", "H1")])
    desc = f"{st}; {comp}"
    good = r.random() < 0.93
    head = ["2 CORRECTED ACCELEROGRAM" if good else r.choice(["1 UNCORRECTED ACCELEROGRAM", "4 RESPONSE AND FOURIER AMPLITUDE SPECTRA", "*"]), "*", "2555b", "     2011  08  23    1751 MINERAL, VA", "Moment Mag= 5.80     Ms=          Ml=",
            f"station = {st}   component= {comp}", "epicentral dist =    121.4       pk acc =  3.91E+1", "inst type=K2         data source = USGS", "*", "*", "*"]
    head += ["".join(f"{v:10d}" for v in ints[i:i + 8]) for i in range(0, 48, 8)]
    head += ["".join(v.rjust(15) for v in flts[i:i + 5]) for i in range(0, 50, 5)]
    more = r.choice([[], [], ["   9.9999   9.9999"]])        # whatever follows the announced count is not part of the record
    write(head + comments + lines + more, r.choice(["\n", "", "\n\n"]))
    s = scale()
    got, raised = load(motion.TimeSeriesMotion.load_smc_file, s)
    if not good:
        tr.ev("notsmc", raised=raised)
        return
    tr.ev("smc", raised=raised, lines=chars(lines), values=vals, desc=desc, dt=F(1 / float(sps)), scale=F(1 if s is None else s), got=got)


def ctl():
    def real(lo, hi):
        x = r.uniform(lo, hi)
        return r.choice([f"{x:.4E}", f"{x:.3f}", f"{x:g}"])
    rows = []
    for i in range(r.choice([1, 2, 3, r.randint(1, 8), r.randint(1, 8) if r.random() < 0.9 else r.randint(10, 30)])):
        iq = r.choice(["0.0", "0.0000E+00", "0.02", "1.0E-01", "50", "20.", "1.0", "1.5", real(0.001, 0.2), real(2, 200)])
        rows.append([str(i + 1), r.choice([real(1e-4, 0.5), "1"]), r.choice([real(0.1, 3.5), "1", "2"]), r.choice([real(1.5, 2.8), "2"]), iq])
    hs = [r.choice([real(1, 4), "3.50", "3"]), r.choice([real(2, 3), "2.72", "2"])]
    last = [r.choice(["401", str(len(rows) + 1)]), r.choice(["0.00", "-1.0", "30"])]
    freq = [r.choice(["400", "2"]), r.choice(["50.00", "25"])]
    out = [r.choice(["0.00", "0", "0.01"])]
    lines = []

    def put(words, extra=()):
        sep = r.choice(["  ", " ", "\t"])
        lines.append(r.choice(["   ", " ", ""]) + sep.join(list(words) + list(extra)) + r.choice(["", " "]))

    def comment():
        for _ in range(r.choice([0, 0, 1, 2])):
            lines.append(r.choice(["!Layer information:", "! 1 2 3 4 5", "!", "!1 0.1 0.2 0.3 0.4"]))
    for words in (["09/09/11"], ["stem"], freq, out):
        comment()
        put(words)
    comment()
    depth = 0.0
    for row in rows:
        depth += float(row[1])
        put(row, r.choice([[], [f"{depth:.4E}"]]))
        if r.random() < 0.1:
            comment()
    comment()
    put(hs)
    comment()
    put(last)
    write(lines, r.choice(["\n", ""]))
    d, raised = call(tools.read_nrattle_ctl, path)
    got, prof = {}, []
    if not raised:
        def look():
            return {"rows": [FS([row["layer"], row["thickness"], row["vel_shear"], row["density"], row["inv_qual"]]) for row in d["profile"]],
                    "hs": FS([d["hs_vel_shear"], d["hs_density"]]), "last": FS([d["hs_layer"], d["inci_angle"]]),
                    "freq": FS([d["freq_count"], d["freq_max"]]), "out": FS([d["out_depth"]])}
        got, raised = call(look)
    if not raised:
        p, raised = call(tools.profile_from_nrattle_ctl, d)
    if not raised:
        prof, raised = call(lambda: [{"th": F(la.thickness), "vel": F(la.initial_shear_vel), "uw": F(la.unit_wt), "d": F(la.soil_type.damping),
                                      "dmin": F(la.damping_min), "top": F(la.depth)} for la in p])
    tr.ev("ctl", raised=raised, lines=chars(lines), rows=rows, hs=hs, last=last, freq=freq, out=out, got=got or {}, prof=prof or [])


for case in range(n(240, 3000)):
    tr.new(case)
    r.choice([at2, smc, ctl])()
os.remove(path)
tr.close()
