def check(r):
    exe = r.build("b17", ["b17_timefmt.cc"], ["base", "formats"])
    k = 20 if r.thorough else 1
    r.mode(exe, "rt", 150000 * k)
    r.mode(exe, "parse", 300000 * k)
    r.mode(exe, "fromstr", 40000 * k)
    r.mode(exe, "diff", 20000 * k)
    for c, n in (("rt.roundtrips", 100000), ("parse.accepted", 30000), ("parse.rejected", 30000), ("parse.offsets", 3000), ("fromstr.with_offset", 2000), ("fromstr.dates", 5000), ("fromstr.relative", 39000), ("diff.timed", 100)): r.require(c, n)
    return r.finish("a case is one time and random format written and read back (rt), one text and format with an own recogniser's verdict (parse), one text in a documented M_time_from_str format, one damaged text and one relative time (fromstr), one pair of timevals or a measured delay (diff)",
        ["years 0 to 9999", "the weekday given to %a is valid", "fields are checked one by one: day 31 of a 30-day month is accepted and later normalised, as designed"])
DESIGN = """An own formatter and an own recogniser, written from the descriptor documentation in m_time.h, judge every call: text produced, accept/reject, where parsing stopped, every field set and every field left alone. Formats are random sequences of descriptors and literals; texts are the formatter's output, other spellings of zones and halves of the day, and mutations, held in exact-size heap blocks under ASAN (over-reads). M_time_from_str is driven through every documented format combination, defaults, relative times and arbitrary text; M_time_timeval_diff against exact microseconds, elapsed timers against the clock around measured sleeps."""
