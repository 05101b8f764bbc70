import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sxlib as S
S.ensure_engine()
S.native_cxy()
S.bc_files(S.comp_parts())
S.obj_files(S.comp_parts())
print("engine and compiler built")
