# BLOCKS: addresses and functions of the blocks of the library's own code, for the coverage measure.
# Literal numbers of the library's own code, as hints for the generators: mkdict.py LIBLIB.so OUT BLOCKS
# Reading them from the compiled code makes thresholds and special cases of the tree under test likelier inputs.
# Hints only: without them (no objdump) the search still works.
import math, re, struct, subprocess, sys

lib, out, outb = sys.argv[1:]
ints, dbls, blocks = set(), set(), []
try:
    fn, after = '', False
    for ln in subprocess.run(['objdump', '-d', '--no-show-raw-insn', lib], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
        m = re.match(r'^[0-9a-f]+ <(.*)>:$', ln)
        if m:
            fn = m.group(1)
            continue
        if '7engabra' not in fn or fn.startswith(('_ZNSt', '_ZSt', '_ZNKSt')):
            continue
        m = re.match(r'^\s*([0-9a-f]+):\s', ln)
        if m and after and re.match(r'_Z(Z*NK?7engabra|ls|rs)', fn):
            blocks.append('%s %s\n' % (m.group(1), fn))
        after = '__sanitizer_cov_trace_pc@plt' in ln
        m = re.search(r'\s(cmp|mov|sub|and)\w*\s+\$0x([0-9a-f]+),(.*)$', ln)
        if not m or (m.group(1) in ('sub', 'and') and re.search(r'%[re]sp', m.group(3))):
            continue
        v = int(m.group(2), 16)
        v -= (1 << 64) if v >= 1 << 63 else 0
        if 2 <= v <= 1 << 40:
            ints.add(v)
    b = open(lib, 'rb').read()
    for ln in subprocess.run(['objdump', '-h', lib], stdout=subprocess.PIPE, text=True).stdout.split('\n'):
        w = ln.split()
        if len(w) > 6 and w[1].startswith(('.rodata', '.data')):
            n, off = int(w[2], 16), int(w[5], 16)
            for i in range(off, off + n - 7, 8):
                v, u = struct.unpack_from('<d', b, i)[0], struct.unpack_from('<Q', b, i)[0]
                if v != v or math.isinf(v) or not 2.2e-308 < abs(v):
                    continue
                if float('%.7g' % v) == v or not u & 0xffffffff or abs(math.log10(abs(v))) < 17:
                    dbls.add(abs(v))
except OSError:
    pass
with open(out, 'w') as o:
    for v in sorted(ints):
        o.write('i %d\n' % v)
    for v in sorted(dbls):
        o.write('d %s\n' % struct.pack('>d', v).hex())
with open(outb, 'w') as o:
    o.writelines(blocks)
