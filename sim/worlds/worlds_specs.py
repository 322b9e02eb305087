"""Patch specifications shared by the worlds that need values of many kinds."""


def patch_spec(rng, i):
    from .. import gen
    if rng.random() < 0.3:
        return dict(id=i, special=rng.choice(gen.SPECIALS), t=rng.randrange(5) * 500, tag="p1")
    s = gen.gen_spec(rng, i, t=rng.randrange(4) * 1000, nt=rng.choice([5, 10, 10, 24]), nd=rng.choice([3, 4, 4, 6]),
                     dt=100, tag=rng.choice(["p1", "p1", "p2"]), station="", network="")
    s["dtype"] = rng.choice(["float64", "float64", "float64", "float32", "int32", "complex128"])
    s["extra"] = rng.choice([None, "quality", "latlon", "face"])
    return s
