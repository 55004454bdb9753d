def check(r):
    exe = r.build("b16", ["b16_time.cc"], ["base", "formats"])
    r.mode(exe, "gm", 1500000 if r.thorough else 60000)
    r.mode(exe, "olson", 2000 if r.thorough else 480)
    r.mode(exe, "synth", 60000 if r.thorough else 3000)
    r.mode(exe, "posix", 100000 if r.thorough else 6000)
    r.mode(exe, "mtz", 60000 if r.thorough else 3000)
    r.mode(exe, "load", 24)
    for k, n in (("gm.instants", 60000), ("gm.normalised", 60000), ("olson.conversions", 60000), ("synth.conversions", 60000), ("posix.rules", 6000), ("posix.southern", 1000), ("synth.zones", 2900), ("mtz.multiyear", 1000)): r.require(k, n)
    return r.finish("a case is one instant plus one set of out-of-range fields (gm), one installed zone with its transitions and random instants (olson), one generated zone file (synth), one POSIX rule string (posix), one zone description with per-year rules (mtz)",
        ["instants inside the explicit transition table of a zone file", "reading back is exact unless the same wall clock with the same daylight flag occurs twice"])
DESIGN = """Civil-date arithmetic (days-from-civil) judges UTC conversion, weekday, day of year and the normalisation of out-of-range fields over ±tens of thousands of years. Every installed zone is loaded eagerly, lazily and as a single file and compared at each transition (±1 s, ±half an hour…) and random instants with an independent TZif reader and with the C library; generated TZif files (all versions, with and without indicator counts, leap records) and damaged ones exercise the reader under ASAN. Random POSIX rule strings (both hemispheres, negative daylight saving, odd offsets, "last week") are compared with the C library; zone descriptions with per-year rules with an own model. Every conversion is read back."""
