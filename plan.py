"""What decides each property: proofs tagged with its id (specs/), and harness modes (bounded stand-in and
replay search).  modes: name -> (quick seconds, thorough seconds, quick case cap)"""
PLAN = {
    "C01": dict(modes={"lookup": (20, 300, 100000)}),
    "C02": dict(modes={"insert": (20, 300, 100000)}),
    "C03": dict(modes={"remove": (22, 300, 100000)}),
    "C04": dict(modes={"prefix": (20, 300, 100000)}),
    "C05": dict(modes={"lower": (20, 300, 100000)}),
    "C06": dict(modes={"iter": (20, 300, 100000)}),
    "C07": dict(modes={"count": (20, 300, 100000)}),
    "C08": dict(modes={"reject": (20, 300, 100000)}),
    "C09": dict(level="proof", modes={"space": (25, 300, 100000)}),
    "C10": dict(modes={"io": (15, 200, 100000), "config": (20, 300, 100000)}),
    "C11": dict(modes={"crash": (45, 600, 100000)}),
    "C12": dict(modes={"rc": (22, 300, 100000)}),
    "C13": dict(modes={"lockfree2": (40, 600, 100000)}),
    "C14": dict(modes={"pcache": (12, 120, 1000000)}),
    "C15": dict(modes={"queue": (25, 300, 100000)}),
    "C16": dict(modes={"reopen": (22, 300, 100000)}),
    "C17": dict(modes={"mbdata": (10, 120, 1000000)}),
    "C18": dict(level="proof", modes={"codec": (8, 60, 100000)}),
    "C20": dict(modes={"evict": (22, 300, 100000)}),
    "C21": dict(modes={"backup": (20, 300, 100000)}),
}
