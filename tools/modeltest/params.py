import re
s = open('fz_src.py').read()
s = re.sub(r"def (f\d+)\(\):", r"def \1(A, B, C, D3, v, w):", s)
s = re.sub(r"\n    (A|B|C|D3|v|w) = np\.array\(\[[^\n]*\]\)(?=\n)", r"", s)
open('reorsa/spec_src.py', 'w').write(s)
