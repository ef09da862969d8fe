"""M02: programs compiled by MesCC for i386 behave as C defines (reference: clang -O0, undefined cases discarded by UBSan traps)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import pbt, ccdiff, cgen


class M02(ccdiff.CDiff):
    id = 'M02'
    bits = 32
    quick = 6000
    thorough = 100000
    quick_s = 20
    rule = ('a case is one generated C program of the supported fragment (1-4 functions, globals, structs, arrays, pointers, all statements), '
            'compiled by MesCC on Guile and by clang -fsanitize=undefined; non-trivial = at least 4 of the listed features, and defined behaviour')
    assumptions = ['clang -O0 compiles the fragment correctly', 'excluded: right shift of negative numbers, mixed unsigned int and long on x86_64 (see DESIGN.md)']

    def gen(self, src):
        c, f = cgen.program(src, self.bits)
        return {'c': c, 'f': f}

    def classify(self, c):
        return len(c['f']) >= 4, c['f']


if __name__ == '__main__':
    pbt.main(M02())
