import os

import vf

ZONES = ["UTC", "Fixed/UTC+05:30:00", "Fixed/UTC-09:45:00"] + \
    [z for z in ("America/New_York", "Australia/Lord_Howe") if os.path.exists("/usr/share/zoneinfo/" + z)]


def run(c):
    b = vf.harness("time")
    for z in ZONES:
        c.explore(b, env={"TZ": z})
    return c.finish(
        "model_checking",
        "a state is one (instant, format, offset, time zone), one string, or one pair of held times; oracle is an independent "
        "Gregorian calendar and the X.680 grammar of times",
        {"instants": "boundary dates of %d years x %d times of day x 4 fractions; consecutive days; %s of a day" % ((28, 8, "every second") if c.thorough else (11, 5, "every 61st second")),
         "offsets": "all of -1439..1439 minutes at one instant, %d at every instant" % (16 if c.thorough else 4),
         "time_zones": ZONES, "strings": "all single and double substitutions, insertions, deletions and truncations of 6 legal strings; all two-digit field pairs",
         "history_depth": 4 if c.thorough else 3})
