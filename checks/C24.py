import sxlib as S
BOUNDS = "35 syntactic contexts (declarations, parameters, types, statements, switch, match, string interpolation, macros, attributes, compile-time code, module), each with every one of about 120 tokens, with every token followed by every fifteenth one (thorough: every fourth), with an arbitrary byte (thorough: two); twelve kinds of nesting to depth 40; programs of 0, 1, 2, 3, 17 or 40 declarations, the first three arbitrarily valid or broken in one of six ways"
OUTSIDE = "longer arbitrary sequences; import and include (they read other files: C02 covers them); what the diagnostics say; stages after the parser; exhaustion of memory"
ASSUMPTIONS = []
H = S.VERIF + "/harness/C24.c"
def units(work):
    T = S.THOROUGH
    yield S.c_unit("nest", H, work, reach=["end"], defs=["-DNEST", "-DDEPTH=41"], time_s=200, opts=["-path-steps", "100000000"])
    yield S.c_unit("recover", H, work, reach=["end"], defs=["-DRECOVER", "-DNBAD=40"], time_s=200, opts=["-path-steps", "100000000"])
    yield S.c_unit("token1", H, work, reach=["end", "accepted", "diagnosed"], defs=["-DTOKENS=1", "-DSTRIDE0=1", "-DSTRIDE=1"], time_s=200)
    yield S.c_unit("bytes1", H, work, reach=["end", "accepted", "diagnosed"], defs=["-DBYTES=1"], time_s=200)
    yield S.c_unit("token2", H, work, reach=["end", "accepted", "diagnosed"], defs=["-DTOKENS=2", "-DSTRIDE0=2", "-DSTRIDE=%d" % (4 if T else 15)], time_s=800 if T else 400)
    if T: yield S.c_unit("bytes2", H, work, reach=["end", "accepted", "diagnosed"], defs=["-DBYTES=2"], time_s=800)
