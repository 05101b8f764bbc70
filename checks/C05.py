import sxlib as S
BOUNDS = "three strings of up to 3 arbitrary bytes under a constant and a two-valued hash (every collision pattern), then 12 (thorough: 40) more strings; 3-4 pool allocations of 11 sizes around the block limits with a reset in between; 6-8 cache operations on 4 objects; 3 resizes of tracked blocks to 4 sizes"
OUTSIDE = "strings longer than 3 bytes with arbitrary content; the mixing quality of the hash; allocation failure"
ASSUMPTIONS = ["the string hash is replaced by a constant / two-valued function, which makes the collision cases reachable"]
H = S.VERIF + "/harness/C05.c"
def units(work):
    for h in (0, 1):
        st = ["-stub", "hashRawBytes=sx_hash%d" % h, "-stub", "hashStr=sx_hash%d" % h]
        yield S.c_unit("intern%d" % h, H, work, defs=["-DINTERN", "-DK=%d" % (3 if S.THOROUGH else 2), "-DEXTRA=0"], opts=st, time_s=300, reach=["same", "diff", "end"], bounds="3 strings of up to K arbitrary bytes, hash %d" % h)
        yield S.c_unit("many%d" % h, H, work, defs=["-DINTERN", "-DK=1", "-DEXTRA=%d" % (40 if S.THOROUGH else 12)], opts=st, time_s=300, reach=["same", "diff", "end"], bounds="3 strings of up to 1 byte, then 12 (thorough: 40) more")
    yield S.c_unit("form", H, work, defs=["-DFORM"], opts=["-stub", "hashRawBytes=sx_hash0"], time_s=200, reach=["concat", "join", "long", "fmt", "anon"], bounds="concatenation and path joining of two strings of up to 3 arbitrary bytes; names of 200-279 bytes; numbers -128..127")
    yield S.c_unit("pool", H, work, defs=["-DPOOL", "-DNA=%d" % 2], time_s=200, reach=["end"], bounds="2 allocations of 11 sizes, reset, 2 more")
    yield S.c_unit("cache", H, work, defs=["-DCACHE", "-DNA=%d" % (7 if S.THOROUGH else 6)], time_s=200, reach=["end", "returned"], bounds="6 operations on 4 cached objects")
    yield S.c_unit("tracked", H, work, defs=["-DTRACKED", "-DNA=%d" % (3 if S.THOROUGH else 2)], time_s=200, reach=["end"], bounds="2 resizes of 3 tracked blocks")
