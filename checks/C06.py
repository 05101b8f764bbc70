import sxlib as S
BOUNDS = "arrays: every sequence of 5 pushes, pops, bulk pushes and copies with arbitrary elements; string builder: 3 appends of text around the growth limit, any Unicode scalar, booleans, integers in three 256-wide windows; formatter: 3 pieces of text around the buffer limit, numbers, characters, indentation; every Unicode scalar escaped and read back; binary search over up to 7 arbitrary sorted integers"
OUTSIDE = "floating-point text; type formatting; coloured output; allocation failure"
H = S.VERIF + "/harness/C06.c"
def units(work):
    t = S.THOROUGH
    yield S.c_unit("array", H, work, defs=["-DARRAY", "-DNO=%d" % (6 if t else 5)], time_s=200, reach=["end", "pop", "copy"], bounds="5 operations, arbitrary elements")
    yield S.c_unit("builder", H, work, defs=["-DSB", "-DNO=%d" % (3 if t else 2)], time_s=300, reach=["end", "chr"], bounds="2 (thorough: 3) appends")
    yield S.c_unit("format", H, work, defs=["-DFMT", "-DNO=%d" % (3 if t else 2), "-DOPS=5"], time_s=300, reach=["end", "str", "num", "chr"], bounds="2 (thorough: 3) pieces")
    yield S.c_unit("escape", H, work, defs=["-DESC"], time_s=100, reach=["end"], bounds="every code point below 0x110000")
    yield S.c_unit("bsearch", H, work, defs=["-DBSEARCH"], time_s=100, reach=["found", "absent"], bounds="up to 7 arbitrary sorted integers")
