import sxlib as S
BOUNDS = "every byte string of exactly 1, 2 and 3 bytes; every string of 5 bytes over 14 structural characters inside a string/char/comment context"
OUTSIDE = "longer sources; included sources (C02); the byte-string hash of the keyword table is replaced by a constant (any hash is correct)"
ASSUMPTIONS = ["the source buffer is NUL-terminated after its last byte, as readFile provides", "diagnostics output is dropped"]
H = S.VERIF + "/harness/C01.c"
ST = ["-stub", "hashRawBytes=sx_hash0", "-stub", "hashStr=sx_hash0", "-path-steps", "3000000"]
def units(work):
    for n in (1, 2, 3):
        yield S.c_unit("bytes%d" % n, H, work, defs=["-DN=%d" % n], time_s=300, reach=["eof"], opts=ST, bounds="%d arbitrary bytes" % n)
    k = 5 if S.THOROUGH else 4
    A = "'-DALPHA=\"\\\"\\\\'\\n/*f${}0x.\"'"
    A = '-DALPHA="\\"\\\\\'\\n/*f${}0x."'
    yield S.c_unit("struct%d" % k, H, work, defs=["-DN=%d" % k, A], time_s=600 if S.THOROUGH else 200, reach=["eof"], opts=ST, bounds="%d bytes over \" \\ ' newline / * f $ { } 0 x ." % k)
