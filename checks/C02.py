import sxlib as S
BOUNDS = "included sources of up to 2 bytes before up to 2 bytes of the including one; every byte string of 1..3 bytes, alone and between fixed neighbours; every identifier-shaped string of 2..9 characters for the keyword table"
OUTSIDE = "longer sources; float, character, prefixed-integer (C03) and interpolated-string tokens are not compared beyond C01; the keyword table's hash is replaced by a constant"
ASSUMPTIONS = ["reference token table in harness/C02.c"]
H = S.VERIF + "/harness/C02.c"
ST = ["-stub", "hashRawBytes=sx_hash0", "-stub", "hashStr=sx_hash0", "-path-steps", "3000000"]
def units(work):
    for n in (1, 2, 3):
        yield S.c_unit("bytes%d" % n, H, work, defs=["-DN=%d" % n], time_s=300, reach=["eof"], opts=ST, bounds="%d arbitrary bytes" % n)
    yield S.c_unit("ctx", H, work, defs=["-DN=2", '-DPRE="a\\n  b \\n"', '-DPOST=" c\\n/*\\n*/d"'], time_s=300, reach=["eof"], opts=ST, bounds="2 arbitrary bytes in a multi-line source")
    yield S.c_unit("ops", H, work, defs=["-DN=4", '-DALPHA="<=>-+&.!#|/"'], time_s=300, reach=["eof"], opts=ST, bounds="4 bytes over the characters of multi-character operators")
    yield S.c_unit("comment", H, work, defs=["-DN=4", '-DALPHA="/*\\n a\\""', '-DPRE="x/*"', '-DPOST="*/y"'], time_s=300, reach=["eof"], opts=ST, bounds="4 bytes over comment characters inside a block comment")
    for n in (2, 3, 4, 5, 6, 7, 8, 9):
        yield S.c_unit("kw%d" % n, H, work, defs=["-DN=%d" % n, "-DIDENT"], time_s=120, reach=["eof", "keyword"], opts=ST, bounds="all identifier-shaped strings of %d characters" % n)
    yield S.c_unit("include", H, work, defs=["-DINCLUDES=1,1,0"], time_s=300, reach=["eof", "included", "outer"], opts=ST + ["-stub", "readFile=sx_readFile"], bounds="an included source of 0..1 arbitrary bytes (and an empty one) in a source with an arbitrary byte after the include")
    yield S.c_unit("include2", H, work, defs=["-DINCLUDES=2,2,1", '-DALPHA="a 1+=\\n\\"/"'], time_s=300, reach=["eof", "included", "outer"], opts=ST + ["-stub", "readFile=sx_readFile"], bounds="included sources of 0..2 and 0..1 bytes, 2 bytes after them, over: a space 1 + = newline quote /")
    yield S.c_unit("kwhash", H, work, defs=["-DN=1", "-DKWREAL"], time_s=60, reach=["keyword"], bounds="every keyword and each of its one-letter extensions, with the real hash")
