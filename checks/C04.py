import sxlib as S
BOUNDS = "5 keys, every assignment of home slots (7 at the first capacity), every sequence of 2-3 puts and removes after 4 puts, arbitrary values; 60 elements through four growths with colliding, linear and scattered hashes, arbitrary values"
OUTSIDE = "more than 5 keys with arbitrary hashes; capacities above 257; allocation failure"
H = S.VERIF + "/harness/C04.c"
def units(work):
    for n, d in (("table", "-DHTABLE"), ("hmap", "-DHMAP")):
        D = [d, "-DNK=4", "-DNP=4"]
        yield S.c_unit(n + "_home", H, work, defs=D + ["-DNH=%d" % (7 if n == "table" else 5), "-DHM=1", "-DHB=%d" % (4 if n == "table" else 0), "-DNO=%d" % (3 if S.THOROUGH else 2)], time_s=300, reach=["end", "removed"], bounds="4 keys in every slot, any 2 further operations")
        yield S.c_unit(n + "_wrap", H, work, defs=[d, "-DNK=5", "-DNP=3", "-DNH=3", "-DHM=1", "-DHB=%d" % (7 if n == "table" else 3), "-DNO=%d" % (4 if S.THOROUGH else 3)], time_s=300, reach=["end", "removed"], bounds="5 keys in three neighbouring slots, 3 puts then any further operations")
        yield S.c_unit(n + "_free", H, work, defs=[d, "-DNK=3", "-DNP=2", "-DFREE=%d" % (32 if S.THOROUGH else 8), "-DNO=2"], time_s=300, reach=["end", "removed"], bounds="3 keys with arbitrary 8-bit (thorough: 32-bit) hashes, 2 puts then any 2 operations")
        for g in (3, 12, 60):
            yield S.c_unit("%s_grow%d" % (n, g), H, work, defs=[d, "-DGROW=%d" % g], time_s=300, reach=["grown", "end"], bounds="%d elements through growth, removal of every 2nd-4th, re-insertion, clearing" % g)
