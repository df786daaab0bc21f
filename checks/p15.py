"""P15: energy shares of meters."""
import numpy as np
import pandas as pd

from checks import gen
from checks.p10 import energy_ref
from nilmtk.metergroup import MeterGroup

WORKLOADS = [("shares", 90, 900), ("proportion", 60, 700), ("topk", 30, 350), ("split", 50, 600)]
RULE = ("random buildings (1-5 submeters, nested wiring, one or two mains, several AC types, gaps) are measured; per-meter "
        "energies, remainders, fractions, proportions of mains/upstream, averages per period, top-k selections and train/test "
        "splits are recomputed from the raw samples; distinct = (#submeters, columns, nested, options, mains)")
ASSUMPTIONS = ["good sections are those of property P11", "relative tolerance 1e-9"]
TECHNIQUE = "conservation monitor: shares, remainders and splits vs independent integral of the stored samples"
NOTE = "Held on the executions observed; every reported share is recomputed from raw samples."

ACS = ["active", "apparent", "reactive"]
PERIOD = {"D": 86400, "h": 3600, "W": 7 * 86400, "30min": 1800}


def make(rng, nsub=None, same=None, gaps=0.05, zero=False):
    d = gen.Data("p15-%d" % rng.randrange(10 ** 9), rng.choice(["UTC", "Europe/London"]))
    nsub = nsub or rng.randrange(1, 6)
    nm = rng.choice([1, 1, 2])
    nested = rng.chance(0.4)
    mixed = not same and nsub > 2 and rng.chance(0.5)
    common = same or [("power", a) for a in rng.sample(ACS, 3 if mixed else rng.randrange(1, 4))]
    major = rng.choice(ACS[1:])     # not the best one
    minor = rng.choice([a for a in ACS if a != major])
    for i in range(1, nm + nsub + 1):
        cols = common if (same or rng.chance(0.6)) else [("power", a) for a in rng.sample(ACS, rng.randrange(1, 3))]
        if mixed:       # submeters measure one AC type each, most of them the same one, and the mains all of them
            cols = common if i <= nm else [("power", minor if i % 3 == 0 else major)]
        model = "%s-%d" % (d.name, i)
        maxp = rng.choice([6, 30])
        d.devices[model] = gen.device(model, cols, 6, maxp, None, None)
        df = gen.rand_frame_df(rng, rng.choice([5, 40, 120]), cols, period=6, tz=d.tz, gaps=gaps, maxgap=20, start="2013-10-26 22:00")
        if i > nm:
            df = df * rng.choice([1, 0.1, 0.5])
        if zero and i <= nm:
            df = df * 0
        site = i <= nm
        of = None if site else (0 if nm == 2 else (rng.randrange(2, i) if nested and i > 2 and rng.chance(0.5) else 1))
        d.meter(1, i, df, model, of=of, site=site)
        if not site:
            d.appliance(1, rng.choice(["fridge", "kettle", "light"]), i, [i])
    return d, nm, nsub


def maxp(d, i):
    return d.devices[d.buildings[1]["meters"][i]["device"]]["max_sample_period"]


def energy(d, ids, secs=None):
    """kWh per AC type over sections (None = all data), summed over meters."""
    out = {}
    for i in ids:
        df = d.df(1, i)
        for piece in ([df] if secs is None else [df[gen.in_frame(df.index, s)] for s in secs]):
            for a, e in energy_ref(piece, maxp(d, i)).items():
                out[a] = out.get(a, 0.0) + e
    return out


def best(acs):
    return next(a for a in ACS if a in acs)


def want_proportion(e, o):
    if sum(o.values()) == 0:
        return np.nan
    shared = [a for a in ACS if a in e and a in o]
    if len(shared) > 1:
        return float(np.mean([e[a] / o[a] for a in shared]))
    if shared:
        return e[shared[0]] / o[shared[0]]
    return e[best(e)] / o[best(o)]


def close(mon, got, want, mech, **kw):
    if np.isnan(want):
        mon.check(np.isnan(got), mech, "expected undefined", answer=got, **kw)
    else:
        mon.close(float(got), float(want), mech, rtol=1e-9, atol=1e-12, **kw)


def w_shares(mon, rng):
    d, nm, nsub = make(rng)
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        sub = el.submeters()
        mains = el.mains()
        ids = list(range(nm + 1, nm + nsub + 1))
        group, gids = (sub, ids) if rng.chance(0.6) else (el, list(range(1, nm + nsub + 1)))
        per = rng.choice([None, None, "D", "h", "30min"])
        kw = {} if per is None else dict(per_period=per)
        uptime = per is not None and rng.chance(0.4)
        if uptime:
            kw["use_uptime"] = True
        ac = None
        common = set(ACS)
        for i in gids:
            common &= {c[1] for c in map(tuple, d.df(1, i).columns)}
        if common and rng.chance(0.3):
            ac = kw["ac_type"] = sorted(common)[0]

        def value(i):
            e = energy(d, [i])
            a = ac or best(e)
            v = e[a]
            if per:
                df = d.df(1, i)
                secs = el[i].good_sections()
                dur = sum((s.end - s.start).total_seconds() for s in secs) if uptime else (df.index[-1] - df.index[0]).total_seconds()
                if dur == 0:
                    return a, np.nan
                v = v / (dur / PERIOD[per])
            return a, v

        got = group.energy_per_meter(**dict(kw))
        mon.equal({tuple(c) for c in got.columns}, {(i, 1, d.name) for i in gids}, "energy.meters")
        want = {}
        for i in gids:
            a, v = value(i)
            want[i] = (a, v)
            col = got[group[i].identifier]
            for x in ACS:
                g = col[x] if x in col.index else np.nan
                if x == a:
                    close(mon, g, v, "energy.value", meter=i, ac=x, per=per, uptime=uptime)
                elif not np.isnan(v):
                    mon.check(np.isnan(g), "energy.other_ac", "energy of an AC type that was not chosen", meter=i, ac=x, got=g)
            mon.event("per-meter energies compared")
        if not any(np.isnan(v) for _, v in want.values()):
            if per is None:
                fr = group.fraction_per_meter(**dict(kw))
                tot = sum(v for _, v in want.values())
                if tot:
                    for i in gids:
                        close(mon, fr[group[i].identifier] if group[i].identifier in fr.index else fr[tuple(group[i].identifier)],
                              want[i][1] / tot, "fraction.value", meter=i)
                    mon.close(float(fr.sum()), 1.0, "fraction.sum", rtol=1e-9)
            # remainder
            if group is sub:
                acs = [a for a, _ in want.values()]
                top = [a for a in set(acs) if acs.count(a) == max(acs.count(b) for b in acs)]
                mids = list(range(1, nm + 1))
                me = energy(d, mids)
                if len(top) == 1 and not uptime and (nm == 1 or per is None):
                    both = all(set(c[1] for c in map(tuple, d.df(1, i).columns)) == set(me) for i in mids)
                    if both:
                        a = top[0] if top[0] in me else best(me)
                        m = me[a]
                        if per:
                            df = d.df(1, 1)
                            m /= (df.index[-1] - df.index[0]).total_seconds() / PERIOD[per]
                        r = sub.energy_per_meter(mains=mains, **dict(kw))
                        close(mon, r["Remainder"], m - sum(v for _, v in want.values()), "remainder.value", ac=a, mains=me, submeters=want)
                        mon.check(list(r.values) == sorted(r.values, reverse=True), "remainder.sorted")
                        mon.equal(len(r), nsub + 1, "remainder.rows")
                        mon.event("remainders compared")
                        mon.event("remainders of mixed AC types compared", int(len(set(acs)) > 1 and a != best(me)))
        mon.state("shares", nm, nsub, per, uptime, ac, group is sub)
    finally:
        ds.store.close()


def w_proportion(mon, rng):
    same = [("power", "active")] if rng.chance(0.5) else None
    d, nm, nsub = make(rng, same=same, zero=rng.chance(0.1))
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        mains = el.mains()
        mids = list(range(1, nm + 1))
        gs = list(el[1].good_sections())        # a group reports its first meter's
        o = energy(d, mids, gs)
        if sum(o.values()) and not all(o.values()):
            return      # a share of nothing in one of the AC types
        down = []
        total, all_nan = 0.0, True
        for i in range(nm + 1, nm + nsub + 1):
            m = el[i]
            e = energy(d, [i], gs)
            p = m.proportion_of_energy(mains)
            w = want_proportion(e, o) if o and gs else np.nan
            if o and sum(o.values()):
                close(mon, p, w, "proportion.of_mains", meter=i, energy=e, mains=o)
            else:
                mon.check(np.isnan(p), "proportion.undefined", "no mains energy", answer=p)
            up = d.buildings[1]["meters"][i]["of"]
            if up in (0, 1):
                down.append(i)
                if not np.isnan(w):
                    total += w
                    all_nan = False
            upids = mids if up == 0 else [up]
            ugs = list(el[upids[0]].good_sections())
            ue, se = energy(d, upids, ugs), energy(d, [i], ugs)
            shared = [a for a in ACS if a in ue and a in se and not (ue[a] == 0 and se[a] == 0)]
            seen = any(gen.in_frame(d.df(1, i).index, s).any() for s in ugs)
            if shared and ue[shared[0]] and seen:
                close(mon, m.proportion_of_upstream(), se[shared[0]] / ue[shared[0]], "proportion.of_upstream", meter=i, upstream=upids)
                mon.event("upstream proportions compared")
            mon.event("mains proportions compared")
            # uptime and averages
            sec = sum((s.end - s.start).total_seconds() for s in m.good_sections())
            mon.close(m.uptime().total_seconds(), sec, "uptime")
            off = rng.choice(sorted(PERIOD))
            use = rng.chance(0.5)
            df = d.df(1, i)
            dur = sec if use else (df.index[-1] - df.index[0]).total_seconds()
            avg = m.average_energy_per_period(off, use_uptime=use)
            if dur:
                full = energy(d, [i])
                mon.equal(set(avg.index), set(full), "average.ac_types")
                for a in full:
                    close(mon, avg[a], full[a] / (dur / PERIOD[off]), "average.value", meter=i, period=off, uptime=use)
            else:
                mon.check(np.all(np.isnan(avg)), "average.undefined", answer=avg)
        got = el.proportion_of_energy_submetered()
        close(mon, got, np.nan if all_nan else total, "submetered.value", direct=down)
        s = el.describe(compute_expensive_stats=False)
        mon.equal((int(s["total_n_meters"]), int(s["total_n_site_meters"])), (nm + nsub, nm), "describe.counts")
        mon.state("proportion", nm, nsub, len(down), bool(same), bool(np.isnan(got)))
    finally:
        ds.store.close()


def w_topk(mon, rng):
    d, nm, nsub = make(rng, nsub=rng.randrange(2, 6), same=[("power", "active")])
    ds = d.open()
    try:
        sub = ds.buildings[1].elec.submeters()
        en = {i: energy(d, [i])["active"] for i in range(nm + 1, nm + nsub + 1)}
        if len(set(en.values())) < len(en):
            return
        k = rng.randrange(1, nsub + 1)
        asc, rem = rng.chance(0.3), rng.chance(0.4)
        order = sorted(en, key=lambda i: en[i], reverse=not asc)
        top = sub.select_top_k(k, asc=asc, group_remainder=rem)
        plain = [m for m in top.meters if not isinstance(m, MeterGroup)]
        mon.equal({m.instance() for m in plain}, set(order[:k]), "topk.members", "meters with the largest energy", energies=en, k=k, ascending=asc)
        groups = [m for m in top.meters if isinstance(m, MeterGroup)]
        if rem:
            mon.equal(sorted(x.instance() for g in groups for x in g.meters), sorted(order[k:]), "topk.remainder")
        else:
            mon.equal(len(groups), 0, "topk.groups")
        mon.equal(sorted(m.instance() for m in sub.meters), sorted(en), "topk.unchanged")
        mon.state("topk", k, nsub, asc, rem)
    finally:
        ds.store.close()


def w_split(mon, rng):
    d, nm, nsub = make(rng, nsub=1, gaps=rng.choice([0, 0.05, 0.3]))
    ds = d.open()
    try:
        el = ds.buildings[1].elec
        gs = list(el[1].good_sections())
        f = rng.choice([0.5, 0.1, 0.25, 0.75, 0.9, rng.randrange(1, 100) / 100.0])
        rec = [(s.end - s.start).total_seconds() // 6 for s in gs]
        if sum(rec) == 0:
            return
        if len(gs) > 1 and rng.chance(0.4):     # the split falls exactly between two sections
            k = rng.randrange(1, len(gs))
            if 0 < sum(rec[:k]) < sum(rec):
                f = sum(rec[:k]) / sum(rec)
        t = el.train_test_split() if f == 0.5 and rng.chance(0.5) else el.train_test_split(train_fraction=f)
        total = sum((s.end - s.start).total_seconds() for s in gs)
        before = sum(max(0.0, (min(s.end, t) - s.start).total_seconds()) for s in gs if s.start < t)
        tol = 6.0 * (len(gs) + 1)
        mon.check(abs(before - f * total) <= tol, "split.fraction", "the split does not leave the asked fraction of good time before it",
                  fraction=f, before=before, total=total, sections=len(gs), split=t)
        mon.check(gs[0].start <= t <= gs[-1].end, "split.within")
        mon.raises(AssertionError, lambda: el.train_test_split(train_fraction=rng.choice([0, 1, 1.5, -0.1])), "split.range")
        mon.state("split", min(len(gs), 4), round(f, 1))
        mon.event("splits compared")
    finally:
        ds.store.close()
