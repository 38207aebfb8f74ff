"""What each property's check explores: harness entry points, instances (bounds) and witnesses."""
import itertools

COMMON_ASSUMPTIONS = [
  "memory allocation succeeds for every size reached (allocation failure is not modelled)",
  "libstdc++ code inlined from headers is executed as compiled by clang 18 at -O1 front-end level; log output (std::cerr/cout) is discarded; <sstream> is replaced by a small stand-in in the IR build only",
  "the IR semantics implemented by engine/ and Z3's verdicts are trusted; sampled paths are replayed natively and compared to catch encoding errors",
  "x86-64 Linux, little endian, the configuration that /opt/vp/build.sh builds",
]
PROPS = {}

def inst(e, reach=(), secs=None, bound="", instr=None, **p):
    d = {"e": e, "p": p, "reach": list(reach), "bound": bound}
    if secs: d["t"] = secs
    if instr: d["instr"] = instr
    return d

def grid(e, reach=(), secs=None, bound="", instr=None, **p):
    keys = sorted(p)
    vals = [list(p[k]) if isinstance(p[k], (list, tuple, range)) else [p[k]] for k in keys]
    return [inst(e, reach, secs, bound, instr, **dict(zip(keys, c))) for c in itertools.product(*vals)]

# ---------------------------------------------------------------- C01 round trip
C01q = (
  grid("rt_main", ["ok"], n=[0, 1, 7, 15], flags=[0, 1], chunks=[0, 1, 2], bound="every target of n bytes, two formats, whole or split anywhere in two")
  + grid("rt_main", ["ok"], n=9, dn=[0, 1, 15, 16, 17], flags=[0, 1], chunks=3, bound="every 9-byte target in three chunks (cut anywhere, also empty), small dictionaries")
  + grid("rt_main", ["ok"], tk=8, n=[0, 9, 14], dn=[0, 1, 16, 17], flags=[2, 3], chunks=[0, 1, 3], bound="checksum formats: literal with one arbitrary byte, chunked")
  + grid("rt_main", ["ok", "smaller"], tk=1, L=50, offs=14, p=1, q=1, flags=[0, 1], match=[0, 1], bound="any byte + any 50-byte dictionary run + any byte")
  + grid("rt_main", ["ok", "smaller"], tk=1, L=50, offs=14, p=1, q=0, flags=[2, 3], match=[0, 1], bound="any byte + any 50-byte dictionary run, checksum")
  + grid("rt_main", ["ok"], tk=1, L=30, Ls=6, offs=4, p=1, q=1, flags=[0, 3], bound="runs around the minimum match length")
  + grid("rt_main", ["ok"], tk=2, L=50, offs=2, q=2, flags=[0, 3], chunks=[0, 1], bound="dictionary run with one arbitrary byte anywhere")
  + grid("rt_main", ["ok"], tk=3, L=40, p=1, q=1, flags=[0, 1], bound="target repeats itself")
  + grid("rt_main", ["ok"], tk=4, n=[20, 100, 300], q=1, flags=[0, 1], bound="one arbitrary byte repeated n times, then any byte")
  + grid("rt_main", ["ok"], tk=4, n=[1, 20, 100, 300, 5600], q=0, flags=[2, 3], bound="one arbitrary byte repeated n times, checksum")
  + grid("rt_main", ["ok"], tk=5, dn=400, off=[0, 130, 250], L=[34, 130], p=2, q=3, flags=[0, 1, 3], bound="three runs: address cache modes, long sizes")
  + grid("rt_main", ["ok"], tk=6, n=4, dk=3, q=1, flags=[0, 1], bound="all sequences of four blocks over all dictionaries of two block kinds")
  + grid("rt_main", ["ok"], tk=9, n=[70, 200], per=[1, 2], dn=[0, 32], flags=[0, 1], bound="periodic targets with arbitrary period contents")
  + grid("rt_main", ["ok"], tk=8, n=[127, 128, 300, 16384], dn=32, flags=[0, 1, 2], bound="long literals across varint lengths")
  + grid("rt_main", ["ok"], tk=7, dn=20000, off=[0, 3000], L=[127, 128, 16383, 16384], p=2, q=2, flags=[0, 1], instr=200000000, bound="long dictionary runs across varint lengths")
  + grid("rt_main", ["ok"], tk=7, dn=40000, off=[35000, 17000], L=1000, p=200, q=20, flags=[0, 3], instr=200000000, bound="addresses beyond 16383 and 32767")
  + grid("rt_main", ["ok"], tk=1, L=40, offs=3, p=1, q=1, chunks=2, flags=[0, 1], bound="dictionary run cut anywhere into two windows")
)
C01q += (
  grid("rt_main", ["ok"], tk=10, dk=6, dn=[160, 640], p=3, q=1, flags=[0, 1], bound="colliding blocks: any variant, in the dictionary or not")
  + grid("rt_main", ["ok"], tk=[11, 12, 13], n=48, L=50, offs=3, p=1, q=1, dn=80, flags=[0, 1], bound="dictionary runs and repeated literals mixed")
  + grid("rt_main", ["ok"], tk=14, dk=8, dn=400, L=[34, 60], flags=[0, 1], bound="competing matches")
  + grid("rt_main", ["ok"], tk=7, dn=1200, off=[0, 300], L=[255, 256, 260, 261, 262, 274, 516], p=[1, 2, 3, 4], q=1, flags=0, bound="short ADD next to a COPY whose size modulo 256 has a compound opcode")
  + grid("rt_main", ["ok"], tk=5, dn=400, off=[200, 250], L=34, p=2, q=3, flags=[0, 1], chunks=2, bound="three runs cut anywhere into two windows")
  + grid("rt_main", ["ok"], tk=7, dn=140000, off=[0, 69000], L=[65535, 65536, 70000], p=2, q=2, flags=[0, 1, 2, 3], instr=400000000, bound="runs and addresses beyond 65535")
  + grid("rt_main", ["ok"], tk=8, n=[65536, 70000], dn=16, flags=[0, 1, 2, 3], instr=400000000, bound="literals beyond 65535"))
C01q += (
  grid("rt_main", ["ok"], tk=3, dn=[33000, 70000, 140000], L=40, p=1, q=1, flags=[0, 1], instr=400000000, bound="repeats in the target next to a large dictionary")
  + grid("rt_main", ["ok"], tk=13, dn=[33000, 70000, 140000], L=40, p=1, q=17, flags=[0, 1], instr=400000000, bound="repeats in the target next to a large dictionary")
  + grid("rt_main", ["ok"], tk=8, n=range(15, 35), dn=[0, 33], flags=[0, 1], bound="every literal length from 15 to 34")
  + grid("rt_main", ["ok"], tk=1, L=14, Ls=20, dn=50, p=1, q=1, flags=[0, 1], bound="dictionary runs of 14 to 33 bytes")
)
ENC_HF = ["-DREF_MAX_OUT=150000"]
PROPS["C01"] = dict(harness=["enc.cc"], hflags=ENC_HF, quick=C01q, thorough=[],
  bounds="targets and dictionaries up to 140 000 bytes of which up to 15 are fully symbolic (1 when a checksum is requested); symbolic split points for up to three chunks, fixed steps for dozens; all four format-flag combinations; see instances",
  outside="targets with more than 15 arbitrary bytes at once; arbitrary bytes spread over a hashed region (match finding on them is covered through concrete content with one or two arbitrary bytes); data larger than 140 000 bytes")

# ---------------------------------------------------------------- C02 decoder safety
C02q = (
  grid("dec_safe", sh=0, n=range(1, 11), dict=[0, 16], ver=[0, 83], bound="every delta of n bytes after the file header")
  + grid("dec_safe", sh=0, n=[4, 7, 8], m=[1, 2], ver=[0, 83], bound="the same, byte by byte or cut anywhere")
  + grid("dec_safe", sh=2, n=range(1, 8), bound="every delta of n bytes, header included")
  + grid("dec_safe", sh=1, fl=[0, 1, 2], d=[0, 2], i=2, a=[0, 1], t=[3, 40], bound="arbitrary section contents")
  + grid("dec_safe", sh=1, fl=[0, 1], d=2, i=2, a=2, t=6, sl=4, bound="arbitrary section contents")
  + grid("dec_safe", sh=1, fl=5, ver=83, d=1, i=2, a=1, t=5)
  + grid("dec_safe", ["accept"], sh=3, m=[0, 1], wins=[1, 2], mode=[0, 3])
  + grid("dec_safe", ["reject"], sh=3, m=[0, 1], wins=[1, 2], extra=1, mode=[0, 7])
  + grid("dec_safe", sh=4, near=[0, 1, 4, 255], same=[0, 3, 255], pos=[0, 300, 600, 800, 1100, 1500], k=1, m=[0, 1], i=1, d=1, a=1, bound="custom code table with one arbitrary entry, every cache size class")
  + grid("dec_safe", sh=4, near=[4], same=[3], pos=[163, 256 + 163, 512 + 163, 768 + 163, 1280 + 163], k=1, m=[0, 1], i=2, d=2, a=1, t=5, bound="custom code table with one arbitrary entry that the window uses")
  + grid("dec_safe", sh=5, op1=19, sb1=5, ab1=1, t=10, sl=8, sp=2, bound="sizes up to the 32-bit limits")
  + grid("dec_safe", sh=5, op1=19, sb1=1, ab1=5, t=10, sl=8, sp=2, bound="addresses up to the 32-bit limits")
  + grid("dec_safe", sh=5, op1=19, sz1=4, ad1=0, op2=[35, 51, 67, 83, 99], sz2=4, ab2=5, t=8, bound="five-byte addresses in every mode")
  + grid("dec_safe", sh=5, op1=0, sb1=5, db1=1, t=[10, 67108865, 2147483647], bound="RUN sizes up to the 32-bit limits")
  + grid("dec_safe", sh=5, op1=19, sz1=4, ab1=1, op2=20, ab2=1, op3=36, ab3=1, t=12, xi=1, xd=1, xa=1, bound="leftover section bytes")
)
C02q += (
  grid("dec_safe", sh=6, ver=83, m=[0, 1], wt2=range(9), bound="two windows of any kinds, layouts and sources")
  + grid("dec_safe", sh=6, ver=0, m=[0, 1], wt2=range(7), bound="two standard windows of any kinds and sources")
  + grid("dec_safe", sh=6, ver=83, m=[0, 1], nw=3, wt1=[0, 2, 4], ws1=1, wy=0, bound="three windows")
)
C02q += grid("dec_safe", ["reject"], sh=4, two=[1, 2], over=[1, 100], pos=512 + 163, m=[0, 1], i=1, d=1, a=1, bound="custom table delta whose windows bring too many bytes")
C02q += [inst("dec_safe", ["reject"], sh=5, ver=v, il=v and 1, op1=2, db1=1, op2=19 + 16 * m, sb2=b, ab2=1, t=t, bound="a COPY of any size after one byte, longer than the window or not", **x) for v in (0, 83) for m in (0, 1) for b in (1, 2) for t in (3, 20, 40) for x in (dict(fl=0), dict(sl=4, sp=0))]
C02q += [inst("dec_safe", ["reject"], sh=5, ver=v, il=v and 1, op1=0, sb1=1, db1=1, op2=35, sz2=n, ab2=1, t=t, fl=0, bound="a RUN of any size before a COPY") for v in (0, 83) for n in (20, 60) for t in (30, 70)]
C02q += grid("dec_safe", ["reject"], sh=4, nest=[1, 3, 40], k=0, m=[0, 1], t=5, d=1, i=1, a=1, bound="a code table whose delta brings its own code table")
C02q += (grid("dec_safe", ["reject"], sh=3, wins=[1, 2], trunc=1, nofin=1, m=[0, 1], bound="the decoder is destroyed in the middle of a job, at any byte")
  + grid("dec_safe", ["reject"], sh=5, ver=[0, 83], op1=163, db1=1, ab1=1, t=5, sl=8, sp=0, trunc=1, nofin=1, m=[0, 1])
  + grid("dec_safe", ["reject"], sh=4, two=[1, 2], pos=512 + 163, trunc=1, nofin=1, m=0, t=5, d=1, i=1, a=1))
PROPS["C02"] = dict(harness=["dec2.cc"], hflags=["-DREF_CUSTOM"], ub=1, quick=C02q, thorough=[],
  bounds="x")

# ---------------------------------------------------------------- C03 decoder = reference
def prog(e="dec_ref", reach=("accept",), bound="one window of concrete opcodes with arbitrary operands", **k):
    return inst(e, reach, bound=bound, sh=5, **k)
PROGS = (
  [dict(op1=20 + 16 * m, ab1=1, t=4, sl=16, sp=0) for m in range(2)]
  + [dict(op1=19, sz1=5, ab1=1, op2=19 + 16 * m, sz2=3, ab2=1, t=8, sl=12, sp=1) for m in range(9)]
  # four COPYs rotate the NEAR cache; the fifth uses it
  + [dict(op1=20, ad1=1, op2=20, ad2=3, op3=20, ad3=5, op4=20, ad4=7, op5=20, ab5=1, op6=20 + 16 * m, ab6=1, t=24, sl=12, sp=0) for m in range(2, 6)]
  # compound opcodes: ADD+COPY for each mode, COPY+ADD for each mode
  + [dict(op1=163 + 12 * m + 3 * (a - 1) + (s - 4), db1=a, ab1=1, t=a + s, sl=16, sp=0) for m in (0, 1, 2, 5) for a in (1, 4) for s in (4, 6)]
  + [dict(op1=235 + 4 * m + a - 1, db1=a, ab1=1, t=a + 4, sl=16, sp=0) for m in (0, 2) for a in (1, 4)]
  + [dict(op1=247 + m, ab1=1, eb1=1, t=5, sl=16, sp=0) for m in range(9)]
  # sizes in the opcode and sizes that follow, multi-byte varints
  + [dict(op1=1 + n, db1=n, t=n) for n in (1, 2, 16, 17)]
  + [dict(op1=1, sz1=n, db1=1, dc1=n - 1, t=n) for n in (18, 127, 128, 300)]
  + [dict(op1=0, sb1=n, db1=1, t=t) for n, t in ((1, 5), (2, 130), (3, 5), (5, 7))]
  + [dict(op1=19, sz1=200, ab1=2, t=200, sl=300, sp=0, dict=300), dict(op1=19, sz1=16384, ap1=0x8180, ab1=1, t=16384, sl=30000, sp=100, dict=36000), dict(op1=35, sz1=20, ap1=0x8180, ab1=1, t=20, sl=30000, sp=100, dict=36000), dict(op1=19, sz1=20, ap1=0x81, ab1=1, t=20, sl=30000, sp=0, dict=36000), dict(op1=35, sz1=100, ab1=2, t=100, sl=300, sp=17, dict=400)]
  + [dict(op1=19, sp1=0x82, sb1=1, ad1=0, t=300, sl=300, sp=0, dict=300), dict(op1=0, sp1=0x82, sb1=1, db1=1, op2=0, sb2=1, db2=1, t=380)]
  # overlapping and boundary-crossing copies
  + [dict(op1=2, db1=1, op2=19, sz2=9, ab2=1, t=10, sl=0, fl=0, sp=0), dict(op1=3, db1=2, op2=35, sz2=8, ab2=1, t=10, fl=0), dict(op1=3, db1=2, op2=19, sz2=8, ab2=1, t=10, sl=6, sp=1)]
  # more section data than the instructions use
  + [dict(op1=2, db1=1, op2=20, ab2=1, t=5, **x) for x in (dict(xi=1), dict(xd=1), dict(xa=1), dict(elen=1))]
)
def progs(e, keep=lambda k: True, **extra):
    out = []
    for k in PROGS:
        if not keep(k): continue
        rej = any(x in k for x in ("xi", "xd", "xa", "elen"))
        out.append(prog(e, [] if rej else ["accept"], **dict(k, **extra)))
    return out
C03q = (
  grid("dec_ref", sh=0, n=range(1, 10), bound="every delta of n bytes after the file header, standard format")
  + grid("dec_ref", sh=0, n=range(1, 10), ver=83, bound="every delta of n bytes after the file header, extended format")
  + grid("dec_ref", sh=2, n=range(1, 8), bound="every delta of n bytes without a code table, header included")
  + grid("dec_ref", sh=1, t=20, d=1, i=1, a=1, bound="window with arbitrary section contents")
  + grid("dec_ref", sh=1, fl=[0, 1], t=3, d=[0, 2], i=2, a=[0, 1], bound="window with arbitrary section contents")
  + grid("dec_ref", sh=1, fl=4, ver=83, t=3, d=2, i=1, a=0)
  + grid("dec_ref", sh=1, fl=1, t=6, d=2, i=1, a=1, w2=1, fl2=[0, 1, 2], t2=5, d2=1, i2=1, a2=1, bound="two windows, the second possibly from the target")
  + grid("dec_ref", ["accept"], sh=3, ck=[0, 1], mode=[0, 1], wins=[1, 2], bound="interleaved windows, arbitrary operands")
  + grid("dec_ref", ["accept"], sh=3, trunc=1, mode=0, wins=2, bound="interleaved windows cut anywhere")
  + progs("dec_ref") + progs("dec_ref", ver=83) + progs("dec_ref", lambda k: not any(x in k for x in ("xd", "xa", "elen")), ver=83, il=1)
  + [prog(ver=83, ck=1, op1=3, db1=1, dc1=1, op2=20, ad2=0, t=6, il=i) for i in (0, 1)]
  + [prog(trunc=1, ver=v, il=v and 1, op1=3, db1=2, op2=20, ab2=1, t=6) for v in (0, 83)]
)
C03q += (
  grid("dec_ref", sh=6, ver=83, wt2=range(9), bound="two windows of any kinds, layouts and sources, the second with arbitrary operands")
  + grid("dec_ref", sh=6, ver=0, wt2=range(7), bound="two standard windows of any kinds and sources, the second with arbitrary operands")
  + grid("dec_ref", sh=6, ver=[0, 83], wt1=range(6), wy=1, bound="the first with arbitrary operands")
  + grid("dec_ref", ["accept"], sh=6, nw=3, ver=0, wy=0, ws1=1, bound="three windows")
  + grid("dec_ref", sh=6, nw=3, ver=83, wy=0, ws1=1, wt1=range(9), bound="three windows")
  + grid("dec_ref", sh=6, nw=2, ver=[0, 83], wy=0, x=1, wt2=[0, 1], bound="a byte after the last window")
)
BIG = [dict(op1=20, ad1=ad, op2=20 + 16 * m, ap2=ap, ab2=1, t=8, sl=sl, sp=sp, dict=140000) for m, ap in ((0, 0), (0, 0x8480), (1, 0), (1, 0x8480), (2, 0)) for ad, sl, sp in ((69000, 70000, 0), (33000, 70000, 33000), (65536, 66000, 70000), (5, 70000, 70000))]
C03q += [prog(reach=[], ver=v, il=v and 1, bound="source segments and addresses beyond 32767 and 65535", **k) for k in BIG for v in (0, 83)]
C03q += [prog(ver=v, il=v and 1, op1=20, ap1=a, ab1=1, t=4, sl=sl, sp=sp, dict=140000, bound="source segments and addresses beyond 32767 and 65535") for v in (0, 83) for a, sl, sp in ((0x8884, 140000, 0), (0x8480, 100000, 30000), (0x8180, 20000, 35000), (0x80, 200, 139800))]
PROPS["C03"] = dict(harness=["dec.cc"], hflags=["-DREF_MAX_OUT=40000", "-DDICT_MAX=150000"], quick=C03q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C04 chunking
C04q = (
  grid("dec_chunk", sh=0, n=range(1, 9), m=2, ver=[0, 83], bound="every delta of n bytes after the header, cut anywhere in two")
  + grid("dec_chunk", sh=0, n=[3, 6, 7, 8], m=[1, 4], ver=[0, 83], bound="every delta of n bytes after the header, byte by byte, with empty chunks")
  + grid("dec_chunk", sh=0, n=[5, 6, 7], m=3, ver=[0, 83], bound="three pieces")
  + grid("dec_chunk", sh=2, n=[3, 5, 6, 7], m=[1, 2, 3], bound="header symbolic too")
  + grid("dec_chunk", ["accept"], sh=3, m=[1, 2, 3, 4, 7], mode=[0, 1, 3], wins=1, bound="interleaved window, arbitrary operands")
  + grid("dec_chunk", ["accept"], sh=3, m=[1, 2, 5, 9], mode=[0, 1], wins=2, fl2=[1, 2], sp=0, bound="two interleaved windows")
  + grid("dec_chunk", ["accept"], sh=3, m=[1, 2], wins=1, cpd=1, bound="compound opcode split from its operands")
  + grid("dec_chunk", ["reject"], sh=3, m=[1, 2, 3], wins=1, extra=1, nr=0, bound="interleaved window with a byte too many")
  + grid("dec_chunk", ["reject"], sh=3, m=[1, 2, 5], wins=2, extra=1, nr=0)
  + grid("dec_chunk", ["accept"], sh=3, m=[1, 2], ck=1, nr=0, na=1, bound="interleaved window with checksum")
  + grid("dec_chunk", ["incomplete"], sh=3, m=[1, 2], trunc=1, wins=2, bound="input ends anywhere")
  + grid("dec_chunk", ["accept", "reject"], sh=4, m=[1, 2, 7, 64], near=4, same=3, pos=512 + 163, k=1, t=5, d=1, i=1, a=1, bound="custom code table")
  + grid("dec_chunk", ["accept"], sh=1, fl=1, t=6, d=2, i=1, a=1, w2=1, fl2=2, t2=5, d2=0, i2=1, a2=1, m=[1, 2], bound="second window copies from the target")
  + progs("dec_chunk", lambda k: k.get("sz1", 0) < 16384 and "op6" not in k, m=1) + progs("dec_chunk", lambda k: k.get("t") < 20 and k.get("sb1", 0) < 5, m=2)
  + progs("dec_chunk", lambda k: k.get("t") < 200 and k.get("sb1", 0) < 5 and not any(x in k for x in ("xd", "xa", "elen")), m=1, ver=83, il=1)
  + progs("dec_chunk", lambda k: k.get("t") < 20 and k.get("sb1", 0) < 5 and not any(x in k for x in ("xd", "xa", "elen")), m=2, ver=83, il=1)
  + progs("dec_chunk", lambda k: k.get("t") >= 200 and k.get("sb1", 0) < 2 and not any(x in k for x in ("xd", "xa", "elen")), m=100, ver=83, il=1)
)
C04q += (
  grid("dec_chunk", sh=6, ver=83, m=[1, 7], wt2=range(9), bound="two windows of any kinds, layouts and sources")
  + grid("dec_chunk", sh=6, ver=0, m=[1, 7], wt2=range(7), bound="two standard windows of any kinds and sources")
  + grid("dec_chunk", sh=6, ver=83, m=2, wt2=range(9), wy=0, ws1=1, bound="two windows of any kinds, layouts and sources, cut anywhere")
  + grid("dec_chunk", sh=6, ver=0, m=2, wt2=range(7), wy=0, ws1=1, bound="two standard windows of any kinds and sources, cut anywhere")
  + grid("dec_chunk", sh=6, nw=3, ver=83, m=1, wt1=[0, 2, 4], wt3=[1, 4], ws1=1, wy=0, bound="three windows byte by byte")
  + grid("dec_chunk", ["accept"], sh=4, pw=1, ver=83, il=1, m=[1, 2], pos=512 + 163, k=1, op1=163, sz1=2, db1=2, ab1=1, t=6, sl=16, sp=0, bound="custom table: a two-instruction opcode whose first size is arbitrary, possibly explicit, interleaved")
  + grid("dec_chunk", ["accept"], sh=4, pw=1, ver=83, il=1, m=[1, 2], pos=768 + 163, k=1, op1=163, db1=1, ab1=1, op2=2, db2=1, t=6, sl=16, sp=0, bound="custom table: the second size is arbitrary")
  + grid("dec_chunk", ["accept"], sh=4, pw=1, ver=0, m=[1, 2], two=[1, 2], pos=512 + 163, op1=163, db1=1, ab1=1, t=5, sl=16, sp=0, bound="custom table brought by two windows")
)
PROPS["C04"] = dict(harness=["dec2.cc"], hflags=["-DREF_CUSTOM", "-DREF_MAX_OUT=40000"], quick=C04q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C05 limits
C05q = (
  grid("lim_hdr", k=[0, 1, 2], nb=[1, 2, 5], il=[0, 1], late=[0, 1], bound="symbolic limits, symbolic announced size, k complete windows before")
  + grid("lim_hdr", k=[0, 1], nb=5, il=[0, 1], late=[0, 1], big=1, bound="64-bit symbolic limits")
  + grid("lim_free", sh=0, n=range(3, 9), ver=[0, 83], bound="every short delta under symbolic limits")
  + grid("lim_free", sh=1, fl=1, sl=4, sp=0, t=[2, 6, 9], d=1, i=1, a=1, bound="window of symbolic contents")
  + grid("lim_free", sh=1, fl=1, sl=4, sp=0, t=4, d=1, i=1, a=1, w2=1, fl2=[0, 2], t2=5, d2=1, i2=1, a2=0, sl2=2, sp2=0, bound="two windows")
  + grid("lim_free", sh=3, wins=[1, 2], bound="interleaved windows")
)
C05q += (
  grid("dec_reuse", k1=[0, 1, 2, 5], k2=[0, 2, 5], how=[0, 1], mf=[4, 5, 7], mw=[0, 4, 6], bound="two deltas through one decoder under size limits") +
  grid("lim_free", sh=6, ver=83, wy=0, top=60, wt1=range(9), ws1=1, bound="two windows of any kinds under symbolic limits up to 60")
  + grid("lim_free", sh=6, ver=0, nw=3, wy=0, top=[12, 60], wt1=range(7), ws1=1, bound="three windows under symbolic limits")
)
C05q += grid("lim_free", ["accept"], sh=4, top=12, pos=[163, 512 + 163], k=1, fl=1, sl=4, sp=0, t=5, d=1, i=1, a=1, bound="custom code table under small limits, which do not concern the table")
C05q += grid("lim_free", sh=4, top=12, pos=[163, 512 + 163], k=1, fl=1, sl=4, sp=0, t=4, d=1, i=1, a=1)
C05q += grid("lim_free", sh=4, two=1, over=[0, 3], top=12, pos=512 + 163, fl=1, sl=4, sp=0, t=4, d=1, i=1, a=1)
C05q += grid("lim_hdr", ["fits", "exceeds", "late-window"], k=[0, 1, 2], nb=[1, 2], il=[0, 1], late=2, tmax=2, bound="both limits changed between windows")
C05q += grid("lim_hdr", ["fits", "exceeds", "late-window"], k=1, nb=5, il=[0, 1], late=2, tmax=2, big=1, bound="both limits changed between windows, 64-bit limits")
PROPS["C05"] = dict(harness=["dec2.cc"], hflags=["-DREF_CUSTOM"], quick=C05q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C06 checksum
C06q = (
  grid("ck_def", ["ok"], n=[0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 100], k=200, bound="every buffer of n bytes")
  + grid("ck_def", ["ok"], n=[255, 256, 257, 1000, 5551, 5552, 5553, 5568], k=2, fill=[255, 0], bound="two arbitrary bytes in a long buffer")
  + grid("ck_def", ["ok"], n=[11103, 11104, 11105, 16657, 20000], k=1, fill=[255, -1], instr=100000000, bound="one arbitrary byte in a long buffer")
  + grid("ck_inc", ["ok"], n=[1, 2, 8, 17, 33], k=200, bound="every buffer of n bytes, every split")
  + grid("ck_inc", ["ok"], n=[5560], k=0, bound="every split of a long buffer")
  + grid("ck_one", ["ok"], n=[1, 2, 9, 17], k=[0, 1, 2], bound="any one byte changed to any other value")
  + grid("ck_e2e", ["accepted", "rejected"], n=[40, 50], fl=[2, 3], bound="any one dictionary byte corrupted, encoded with checksum")
  + grid("ck_win", ["accepted", "rejected"], il=[0, 1], n=[1, 3], bound="window with any one bit of the stored checksum wrong")
  + grid("ck_win", ["accepted", "rejected"], il=[0, 1], n=[17, 5552, 5560, 12000], conc=2, instr=100000000, bound="long window with any one bit of the stored checksum wrong")
  + grid("ck_chunks", ["ok"], n=[2, 5, 17], fl=[2, 3], ch=[1, 2, 3], bound="each chunk's window carries that chunk's checksum")
)
C06q += (
  grid("ck_win", ["accepted", "rejected"], il=[0, 1], n=[1, 2, 17, 5560], conc=2, free=1, instr=100000000, bound="every stored checksum value of up to 35 bits")
  + grid("ck_win", ["accepted", "rejected"], il=[0, 1], n=[1, 2], free=1, bound="every stored checksum value with arbitrary data")
  + grid("ck_win", ["accepted", "rejected"], il=[0, 1], n=[65535, 65536, 65537, 131072], conc=2, free=1, instr=100000000, bound="every stored checksum value, windows of 64 kB and more")
)
C06q += grid("ck_chunks", ["ok"], n=[65535, 65536, 65537, 131073], fl=[2, 3], ch=1, instr=400000000, bound="chunks of 64 kB and more carry their checksum")
C06q += grid("ck_chunks", ["ok"], n=70000, fl=[2, 3], ch=3, at=[100, 33000], instr=400000000)
PROPS["C06"] = dict(harness=["ck.cc", "ck2.cc"], hflags=["-DREF_MAX_OUT=140000"], quick=C06q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C07 varints
# deltas whose meaning depends on the component; they go through the public interface only
def public(k): return progs("dec_ref", k)
C07q = (public(lambda k: any(x.startswith(("sb", "sp", "ap")) for x in k if x not in ("sp",)) or k.get("sz1", 0) > 100) + [inst("vi_rt32", ["rt"]), inst("vi_rt64", ["rt"])] + grid("vi_parse32", n=range(0, 8)) + grid("vi_parse64", n=range(0, 12)) + grid("vi_field", n=range(1, 11), kind=range(4)))
PROPS["C07"] = dict(harness=["varint.cc", "dec.cc"], hflags=["-DREF_MAX_OUT=40000"], quick=C07q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C08 address cache
C08q = (public(lambda k: any(x.startswith(("ab", "bb")) for x in k)) +
  grid("ac_lock", k=2, q=8, hd=1, near=[0, 1, 4], same=[0, 1, 3], bound="two arbitrary addresses at consecutive positions")
  + grid("ac_lock", k=2, q=8, hd=1000, near=[0, 4], same=[0], bound="two arbitrary addresses, distant positions")
  + grid("ac_lock", k=2, q=8, hd=1000, near=[0, 1], same=1, bound="two arbitrary addresses, distant positions")
  + grid("ac_lock", k=2, q=8, hc=[1000000, 2147483647], bound="two addresses, far positions")
  + grid("ac_lock", k=2, q=8, res=2, scale=[100, 10000], hc=[33554432, 2147483647], near=4, same=0, bound="two addresses up to 2^31")
  + grid("ac_lock", k=2, q=8, res=2, scale=[100, 10000], hc=[33554432, 2147483647], near=0, same=[0, 3], bound="two addresses up to 2^31")
  + grid("ac_lock", k=1, q=8, res=2, scale=[100, 10000], hc=[33554432, 2147483647], bound="one address up to 2^31")
  + grid("ac_lock", k=2, q=8, res=1, scale=[100, 10000], hd=1, near=[0, 4], same=[0, 3], bound="two addresses up to 2^31 at nearby positions")
  + grid("ac_lock", k=3, q=8, hd=1, res=2, r0=0, near=4, same=3, bound="three addresses")
  + grid("ac_lock", k=3, q=8, hd=1, res=2, r0=5, near=1, same=[1, 3], bound="three addresses")
  + grid("ac_lock", k=2, q=8, hd=1, reinit=1)
  + [inst("ac_init", ["ok", "refused"])]
  + grid("ac_lock", k=2, q=8, hd=1, res=2, near=[0, 5], same=[130, 249], rb=[33000], bound="large SAME caches")
  + grid("ac_lock", k=1, q=8, hc=[60, 1000], res=2, near=[200, 254], same=[0], bound="large NEAR caches")
  + grid("ac_dec", k=[1, 2], n=1, res=1, q=8, hc=15000000, near=[0, 5], same=[130, 249], rb=[33000, 300], mode=[0, 1, 5, 6, 128, 134], bound="large SAME caches")
  + grid("ac_dec", k=[0, 1, 4, 5, 6], n=1, res=1, q=8, hc=150000, bound="k cached addresses, any mode, any address byte")
  + grid("ac_dec", k=[1, 3], n=1, res=3, q=8, hc=150000, near=[0, 1, 2, 8], same=[0, 1, 2])
  + grid("ac_dec", k=1, n=[2, 3, 5, 6], mode=[0, 1, 2], cont=1, near=4, same=0, hc=[2147483647, 100000], bound="multi-byte addresses")
)
PROPS["C08"] = dict(harness=["addr.cc", "dec.cc"], hflags=["-DREF_MAX_OUT=40000"], quick=C08q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C09 opcodes
C09q = (grid("rt_ref", ["ok"], tk=1, L=50, offs=14, p=1, q=1, flags=[0, 1], match=[0, 1], bound="any byte + any 50-byte dictionary run + any byte, through the encoder")
  + grid("rt_ref", ["ok"], tk=5, dn=400, off=[0, 130, 250], L=[34, 130], p=2, q=3, flags=[0, 1], bound="three runs through the encoder") +
  [inst("im_first", ["found"]), inst("im_second", ["found"]), inst("tab_rfc", ["ok"])] + grid("tab_val", ["valid", "invalid"], col=range(6), mm=[8]) + grid("tab_val", ["invalid"], col=[0, 4], mm=[9, 7])
  + grid("tw_seq", ["ok"], k=2, hi1=20, hi2=20, il=[0, 1], bound="every pair of instructions of sizes 1..20")
  + grid("tw_seq", ["ok"], k=3, hi1=6, hi2=6, hi3=6, ah1=1, ah2=1, ah3=1, il=[0, 1], bound="every triple of instructions of sizes 1..6")
  + grid("tw_seq", ["ok"], k=1, k1=[0, 1, 2], lo1=1, hi1=300, dn=400, ah1=0, il=[0, 1], bound="every size up to 300")
  + grid("tw_seq", ["ok"], k=1, k1=[0, 1, 2], lo1=16380, hi1=16388, dn=40000, ah1=0, il=[0, 1], instr=100000000, bound="sizes around 2^14")
  + grid("tw_seq", ["ok"], k=1, k1=[0, 1, 2], lo1=65533, hi1=65538, dn=69000, ah1=0, il=[0, 1], instr=100000000, bound="sizes around 2^16")
  + grid("tw_seq", ["ok"], k=2, k1=1, k2=1, lo1=4, hi1=5, lo2=3, hi2=[20], dn=20000, al1=126, ah1=129, al2=[0, 120, 376, 16380], ah2=[10, 130, 390, 16390], fl=0, bound="COPY pairs over addresses")[0::5]
  + grid("tw_seq", ["ok"], k=2, k1=1, k2=1, lo1=4, hi1=5, lo2=4, hi2=6, dn=20000, al1=16382, ah1=16386, al2=-130, ah2=-120, il=[0, 1], bound="addresses near here")
  + grid("tw_seq", ["ok"], k=2, hi1=3, hi2=4, rounds=2, fl=[0, 2], ah1=1, ah2=1, bound="two windows from one writer")
  + grid("tw_seq", ["ok"], k=2, hi1=5, hi2=5, il=1, fl=3)
  + [inst("tw_seq", ["ok"], k=2, hi1=6, hi2=6, tab=1, t1=1, s1=s1, t2=3, s2=s2, m2=0) for s1, s2 in ((1, 3), (2, 2), (5, 5))]
  + [inst("tw_seq", ["ok"], k=2, hi1=6, hi2=6, tab=1, t1=3, s1=5, m1=0, t2=2, s2=3), inst("tw_seq", ["ok"], k=2, hi1=6, hi2=6, tab=1, t1=1, s1=3, t2=1, s2=2)]
)
C09q += (
  grid("tw_seq", ["ok"], k=3, hi1=5, hi2=5, hi3=5, ah1=0, ah2=0, ah3=0, il=[0, 1], tab=1, t1=[1, 3], s1=[0, 1, 4], t2=[1, 3, 2], s2=[0, 4], bound="a table in which one opcode is another pair, possibly with an explicit size")
  + grid("tw_seq", ["ok"], k=2, hi1=6, hi2=5, rounds=2, reinit=0, ah1=0, ah2=0, il=[0, 1], k1=[0, 1], bound="two windows of one job")
  + grid("tw_seq", ["ok"], k=2, lo1=1, hi1=4, lo2=250, hi2=275, ah1=0, ah2=0, il=[0, 1], dn=400, bound="a short instruction followed by one of 250 to 275 bytes")
  + grid("tw_seq", ["ok"], k=2, lo1=250, hi1=275, lo2=1, hi2=4, ah1=0, ah2=0, il=[0, 1], dn=400, bound="an instruction of 250 to 275 bytes followed by a short one")
  + grid("tw_seq", ["ok"], k=2, lo1=1, hi1=4, lo2=511, hi2=530, ah1=0, ah2=0, dn=600) + grid("tw_seq", ["ok"], k=2, lo1=1, hi1=4, lo2=65536, hi2=65542, k2=[0, 1], ah1=0, ah2=0, dn=66000, instr=100000000)
  + grid("tw_seq", ["ok"], k=2, lo1=4, hi1=5, lo2=4, hi2=5, ah1=0, ah2=0, tab=2, il=[0, 1], o=[2, 255], bound="a table in which one opcode is any pair, with no, small, large or explicit sizes")
  + grid("tw_seq", ["ok"], k=2, lo1=1, hi1=1, lo2=198, hi2=202, ah1=0, ah2=0, tab=2, o=255, t1=[0, 1], bound="the same with long instructions")
)
C09q += (
  grid("tw_big", ["ok"], k=1, k1=[1, 2], il=[0, 1], ck=[0, 1], bound="one instruction of every size up to 2^31-1, parsed")
  + grid("tw_big", ["ok"], k=2, k1=[1, 2], k2=[1, 2], il=[0, 1], ar2=[0, 1], bound="two instructions of every size, parsed")
)
C09q += (grid("tw_seq", ["freed"], leak=1, k=2, hi1=3, hi2=3, ah1=0, ah2=0, il=[0, 1], tab=[0, 1], t1=1, s1=1, t2=3, s2=3, rounds=[1, 2], bound="nothing is left allocated, also for other tables and repeated Init")
  + [inst("tw_seq", ["ok"], k=2, k1=0, k2=k2, lo1=lo, hi1=hi, lo2=lo2, hi2=hi2, ah2=0, dn=400, tab=1, o=255, t1=t, s1=0, t2=0, p=p, u1=1, v1=v, u2=u, v2=z, leak=1, bound="the largest size of the table at its first opcodes") for p, t in ((0, 2), (1, 1)) for v, u, z, k2, lo, hi, lo2, hi2 in ((200, 0, 0, 1, 198, 202, 4, 4), (1, 3, 200, 1, 1, 1, 198, 202), (1, 2, 200, 2, 1, 1, 198, 202))])
PROPS["C09"] = dict(harness=["tab.cc", "imap.cc", "tabv.cc", "enc.cc"], hflags=["-DREF_MAX_OUT=70000"], quick=C09q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C10 match finder
def reent(insts, e, reach=("ok",), drop=(), **extra):
    """The same inputs under another entry point."""
    out = []
    for x in insts:
        p = {k: v for k, v in x["p"].items() if k not in drop}
        out.append(inst(e, reach, bound=x["bound"], instr=x.get("instr"), **dict(p, **extra)))
    seen, u = set(), []
    for x in out:
        k = (x["e"], tuple(sorted(x["p"].items())))
        if k not in seen: seen.add(k); u.append(x)
    return u
C10q = (
  [inst("rh16", ["ok"]), inst("rh4", ["ok"]), inst("rh_two", ["ok"])]
  + reent([x for x in C01q if x["p"].get("tk", 0) in (1, 2, 3, 5, 6) and x["p"].get("flags") == 0], "rt_ref")
  + reent([x for x in C01q if x["p"].get("chunks", 1) <= 1], "enc_rec", drop=("flags", "chunks"))
  + reent([x for x in C01q if x["p"].get("chunks", 1) <= 1 and x["p"].get("tk", 0) in (1, 3, 6, 9)], "enc_rec", drop=("flags", "chunks"), match=0)
  + grid("enc_rec", ["ok"], tk=6, n=5, dk=3, dn=[64, 96], q=1, match=[0, 1], bound="all sequences of five blocks over all dictionaries of two block kinds that share a first byte")
  + grid("enc_rec", ["ok"], tk=[1, 2], dk=[1, 2], dn=[64, 200], L=50, offs=3, p=1, q=1, bound="dictionaries of repeated bytes and repeated blocks")
  + grid("enc_rec", ["ok"], tk=1, dk=4, dn=[48, 49, 63], L=33, off=0, offs=3, Ls=3, p=1, q=1, bound="arbitrary bytes at the end of the dictionary")
)
C10q += (
  grid("enc_rec", ["ok"], tk=10, dk=6, dn=[640, 160, 1000], p=[0, 3], q=1, match=[0, 1], bound="long hash chains of colliding blocks: any variant, in the dictionary or not")
  + grid("enc_rec", ["ok"], tk=[11, 12, 13], n=48, L=50, offs=3, p=1, q=1, dn=80, match=[0, 1], bound="dictionary runs and repeated literals mixed")
)
PROPS["C10"] = dict(harness=["encw.cc", "enc.cc", "rh.cc"], hflags=ENC_HF, quick=C10q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C11 conformance of the encoder's output
C11q = (
  reent([x for x in C01q if not (x["p"].get("tk", 0) == 4 and x["p"]["n"] == 5600) and x["p"].get("n", 1) != 0], "rt_ref")
  + grid("rt_ref", ["empty"], n=0, flags=[0, 1, 2, 3], chunks=[0, 1, 2])
  + grid("rt_ref", ["ok", "copy"], tk=1, L=50, offs=4, p=1, q=0, flags=[0, 1, 2, 3], match=[0, 1])
)
C11q += (
  grid("rt_ref", ["ok"], tk=[3, 9, 4], n=100, per=2, L=40, dn=[0, 1, 32], flags=[0, 1], match=0, bound="repetitive targets without target matching")
  + grid("rt_ref", ["ok"], tk=5, dn=400, off=[200, 250], L=34, p=2, q=3, flags=[0, 1], chunks=2, bound="three runs cut anywhere into two windows: caches start empty in each")
)
PROPS["C11"] = dict(harness=["enc.cc"], hflags=ENC_HF, quick=C11q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C12 custom code tables
CUST = ["-DREF_CUSTOM", "-DREF_MAX_NEAR=8", "-DREF_MAX_SAME=8"]
C12q = (
  grid("dec_ref", sh=4, near=4, same=3, pos=[c * 256 + o for c in range(6) for o in (0, 1, 19, 163, 255)], k=1, t=5, d=1, i=1, a=1, bound="default table with one arbitrary entry, then a window of arbitrary contents")
  + grid("dec_ref", sh=4, near=[1, 2, 8], same=[1, 2, 8], pos=1024 + 163, k=1, t=5, d=1, i=1, a=1, bound="other cache sizes, one arbitrary mode")
  + grid("dec_reuse", k1=[2, 4], k2=[0, 1, 2], how=[0, 1], bound="a delta with a custom table, finished or abandoned anywhere, then another delta")
  + grid("dec_ref", sh=4, near=4, same=3, pos=[512 + 162, 162, 256 + 162], k=2, t=5, d=1, i=1, a=1, bound="two adjacent arbitrary entries")
)
C12q += (
  grid("dec_ref", ["reject"], sh=4, near=[4, 260], same=[3, 259], pos=0, k=0, t=5, d=1, i=1, a=1, bound="cache sizes beyond a byte")[1:]
  + grid("dec_reuse", k1=[6, 7], k2=[0, 2, 6], how=[0, 1], bound="a custom table brought by two windows, abandoned anywhere, then another delta")
  + grid("dec_ref", ["accept"], sh=4, pw=1, two=[1, 2], pos=[163, 512 + 163, 768 + 163, 1280 + 163], op1=163, db1=1, ab1=1, t=5, sl=16, sp=0, bound="custom table brought by two windows, one entry arbitrary, then an opcode that uses it")
  + grid("dec_chunk", ["accept"], sh=4, pw=1, ver=83, il=1, m=1, pos=512 + 163, k=1, op1=163, sz1=2, db1=2, ab1=1, t=6, sl=16, sp=0, bound="a two-instruction opcode whose first size is arbitrary, possibly explicit, byte by byte")
  + grid("dec_ref", ["reject"], sh=4, near=[4, 65540], same=[3, 65539], pos=0, k=0, t=5, d=1, i=1, a=1, bound="cache sizes beyond 16 bits")[1:]
)
C12q += grid("dec_ref", ["reject"], sh=4, nest=[1, 2, 3], pos=[0, 512 + 163], k=[0, 1], t=5, d=1, i=1, a=1, bound="a code table whose delta brings its own code table, one to three levels deep")
PROPS["C12"] = dict(harness=["dec.cc", "dec2.cc"], defs=["-DNDEBUG"], hflags=CUST, quick=C12q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C13 reuse
C13q = (
  grid("dec_reuse", k1=range(6), k2=[0, 1, 2, 5], how=0, nofin=[0, 1], bound="two deltas through one decoder")
  + grid("dec_reuse", k1=range(6), k2=[0, 1, 5], how=1, bound="first delta cut anywhere")
  + grid("dec_reuse", k1=[0, 1, 5], k2=[0, 1, 5], how=2)
  + grid("dec_reuse", k1=5, k2=5, how=0, allow=0)
  + [inst("dec_misuse", ["done", "late-allow"])]
  + grid("enc_reuse", ["ok"], how=range(6), flags=[0, 1], tk=1, L=40, p=1, q=1, uk=[0, 1, 2], un=[0, 20, 60], bound="two targets through one encoder")
  + grid("enc_reuse", ["ok"], how=range(6), flags=[2, 3], tk=1, L=40, p=1, q=0, uk=1, un=40)
  + grid("enc_reuse", how=range(6), json=1, tk=1, L=40, p=1, q=0, uk=1, un=[0, 40])
  + grid("enc_reuse", ["ok"], how=[0, 2, 3, 4], flags=[0, 1], tk=3, L=40, p=1, q=1, uk=[0, 2], un=60, chunks=2)
  + grid("enc_share", ["ok"], flags=[0, 1, 2, 3], tk=1, L=40, p=1, q=0, uk=[0, 1], un=40)
  + grid("enc_misuse", ["ok"], flags=[0, 1, 3], tk=1, L=40, p=1, q=0)
)
C13q += grid("dec_reuse", k1=range(6), k2=[0, 1, 5], how=[0, 1], d2=0, bound="the second job has an empty dictionary") + grid("dec_reuse", k1=[2, 6, 7], k2=2, how=1, d2=0)
C13q += (
  grid("dec_reuse", k1=[0, 1, 2, 5], k2=[0, 2, 5], how=[0, 1], mf=[4, 5, 7], mw=[0, 4, 6], bound="two deltas under size limits that each of them meets")
  + grid("dec_reuse", k1=[6, 7], k2=[0, 2, 6], how=[0, 1], bound="a custom table brought by two windows, abandoned anywhere")
  + [inst("enc_failstart", ["ok"])]
  + grid("enc_reuse", ["ok"], how=range(6), json=1, n=0, uk=1, un=40, bound="JSON, then an empty target") + grid("enc_reuse", ["ok"], how=range(6), flags=[0, 1, 2, 3], n=0, uk=1, un=40, bound="then an empty target")
)
C13q += (grid("dec_once", sh=0, n=[1, 5, 7], ver=[0, 83], bound="one-shot decoding replaces the output, every short delta")
  + grid("dec_once", ["accept"], sh=3, wins=[1, 2], used=[0, 1, 2, 3, 4, 5, 6], bound="one-shot decoding on a new and on a used decoder")
  + grid("dec_once", ["accept"], sh=4, pos=512 + 163, k=1, t=5, d=1, i=1, a=1, used=[0, 1, 3]))
PROPS["C13"] = dict(harness=["dec2.cc", "encr.cc"], defs=["-DNDEBUG"], hflags=["-DREF_CUSTOM"], quick=C13q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C14 JSON
C14q = (
  grid("js_enc", ["ok", "nonascii"], how=[0, 1], n=[1, 2, 3], dn=[1, 16, 64], bound="every target of n bytes")
  + grid("js_enc", ["ok"], how=[0, 1], tk=1, L=40, offs=3, p=1, q=0, t7=1, match=[0, 1], chunks=[1, 2], bound="any byte + dictionary run")
  + grid("js_enc", ["ok"], how=0, tk=3, L=40, p=1, q=0, t7=1, bound="self repeat")
  + grid("js_enc", ["nonascii"], how=[0, 1], tk=1, L=20, dk=4, tail=2, d8=1, t7=1, p=1, q=0, dn=40, bound="arbitrary bytes in the dictionary")
  + grid("js_enc", ["ok"], how=0, again=1, tk=1, L=40, p=1, q=0, t7=1)
  + grid("js_enc", ["ok"], how=[0, 1], n=2, dn=16, chunks=[2, 3])
  + grid("js_seq", ["ok", "add", "run", "copy"], k=[1, 2], lo=1, hi=2, bound="every sequence of k instructions, every data byte")
  + grid("js_seq", ["ok"], k=2, lo=1, hi=1, rounds=2, flush=[0, 1], bound="writer reused")
  + grid("js_seq", ["ok"], k=3, lo=1, hi=1, flush=1)
  + grid("js_seq", ["ok"], k=1, kind=[1, 2], lo=1, hi=130, ad=[0, 95], an=10, bound="sizes up to 130")
  + grid("js_ascii", ["ascii", "not"], n=[1, 4, 8])
  + [inst("enc_failstart", ["ok"])] + grid("enc_reuse", ["ok"], how=range(5), json=1, tk=1, L=40, p=0, q=0, uk=1, un=[0, 40], bound="one encoder, two targets")
)
C14q += grid("js_enc", ["ok"], how=[0, 1], tk=7, dn=140000, off=[0, 66000, 69000], L=[65535, 65536, 70000], p=2, q=2, t7=2, instr=400000000, bound="sizes and addresses beyond 65535")
C14q += grid("js_enc", ["ok"], how=0, tk=7, dn=20000, off=[127, 9999, 10000], L=[99, 100, 999, 1000, 9999], p=2, q=2, t7=2, instr=400000000, bound="sizes and addresses around powers of ten")
C14q += grid("js_enc", ["ok", "copy"], how=[1, 2, 3], chunks=3, tk=13, L=40, p=0, q=17, t7=2, bound="repeats inside the second and third chunk, any cut")
C14q += grid("js_enc", ["ok", "copy"], how=[1, 2], chunks=2, tk=3, L=[32, 40], p=1, q=1, t7=2, bound="repeats inside the second chunk, any cut")
C14q += grid("js_enc", ["nonascii", "ok"], how=[0, 1], tk=1, L=20, dk=4, tail=2, d8=2, t7=2, p=1, q=0, dn=[40, 63, 64, 65, 100, 129, 300, 1025], bound="arbitrary bytes at the end of a larger dictionary")
C14q += grid("js_enc", ["nonascii", "ok"], how=[0, 1], tk=7, dn=2000, off=1, L=[31, 47, 112, 240, 1000], p=[0, 2], q=2, t7=3, bound="an arbitrary byte at the end of a larger target")
C14q += grid("js_seq", ["ok", "wcopy"], k=4, lo=1, hi=3, lit=1, tadr=1, flush=[1, 2], bound="copies of target data in the first and in a later window")
C14q += grid("js_seq", ["ok", "wcopy"], k=3, lo=1, hi=2, lit=1, tadr=1, flush=1, rounds=2, bound="the same with a reused writer")
C14q += grid("js_enc", ["nonascii", "ok"], how=[0, 1], n=2, dk=4, tail=1, d8=2, t7=2, dn=[1, 2, 15, 16, 17], bound="every last byte of a small dictionary")
PROPS["C14"] = dict(harness=["json.cc", "encr.cc"], hflags=ENC_HF + ["-DJSON_MAX=150000"], quick=C14q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C15 the command
C15q = (
  grid("cli_enc", ["ok"], il=[0, 1], ck=[0, 1], tm=[0, 1], bound="flag combinations, any first byte")
  + grid("cli_enc", ["ok"], js=1, ascii=1, tm=[0, 1])
  + grid("cli_enc", ["ok"], stdin=[0, 1], stdout=[0, 1], alias=[0, 1], after=[0, 1], stats=[0, 1])
  + grid("cli_enc", ["ok"], buf=[1, 7, 38, 39, 64], tn=[0, 1, 38], dn=[0, 40], stdin=[0, 1], bound="buffer sizes around the file size")
  + grid("cli_enc", ["ok", "fault-reported"], faults=1, buf=[0, 20], stdin=[0, 1], stdout=[0, 1], symt=0, bound="any one I/O operation fails")
  + grid("cli_enc", ["ok", "fault-reported"], faults=1, buf=20, il=1, ck=1, symt=0, stats=[0, 1])
  + grid("cli_enc", ["ok", "fault-reported"], faults=1, buf=20, js=1, ascii=1, symt=0)
  + grid("cli_dec", ["ok"], sh=5, op1=163, db1=1, ab1=1, t=5, sl=16, sp=0, stdin=[0, 1], stdout=[0, 1], alias=[0, 1], buf=[0, 1, 4], bound="any data and address")
  + grid("cli_dec", ["ok"], sh=3, wins=[1, 2], buf=[0, 1, 5, 40], stdout=[0, 1], bound="interleaved windows")
  + grid("cli_dec", ["ok", "rejected"], sh=3, wins=[1, 2], trunc=1, buf=[0, 5, 13], bound="delta cut anywhere")
  + grid("cli_dec", sh=3, wins=[1, 2], mw=[9, 10, 11], buf=[0, 7])
  + grid("cli_dec", sh=3, wins=2, mf=[9, 10, 19, 20, 21], buf=[0, 7])
  + grid("cli_dec", sh=3, wins=2, fl2=2, sp=0, allow=[0, 1])
  + grid("cli_dec", sh=0, n=[1, 4, 7], ver=[0, 83], buf=[0, 3], bound="every short delta")
  + grid("cli_dec", ["ok", "fault-reported"], sh=3, wins=2, faults=1, buf=[0, 7, 20], stdin=[0, 1], stdout=[0, 1], stats=[0, 1], bound="any one I/O operation fails")
  + grid("cli_test", ["ok"], il=[0, 1], ck=[0, 1], tn=[0, 38], buf=[0, 20])
  + grid("cli_test", ["ok", "fault-reported"], faults=1, buf=[0, 20], symt=0, stats=[0, 1])
  + [inst("cli_use", ["refused"])]
  + grid("cli_test", ["ok", "damage-reported"], mut=70, il=[0, 1], ck=[0, 1], buf=[0, 20], symt=0, bound="the delta is damaged in any one byte before it is tested")
  + grid("cli_test", ["ok", "damage-reported"], mut=70, il=[0, 1], bound="the delta is damaged in any one byte before it is tested, arbitrary first target byte")
)
C15q += grid("cli_enc", ["ok"], stats=1, tn=[0, 1], dn=[0, 40], js=[0, 1], ascii=1, buf=[0, 1]) + grid("cli_test", ["ok"], stats=1, tn=[0, 1], dn=[0, 40], buf=[0, 1])
C15q += grid("cli_dec", ["ok"], stats=1, sh=0, n=0, ver=[0, 83], buf=[0, 1], bound="a delta without windows")
C15q += grid("cli_enc", ["ok"], js=1, ascii=1, tm=1, buf=[7, 20, 64], tn=[1, 38], bound="JSON in several chunks")
C15q += grid("cli_enc", ["ok"], js=1, ascii=1, tm=[0, 1], dn=0, tn=150, buf=[50, 70], bound="repeats inside later chunks")
C15q += grid("cli_enc", ["ok"], js=1, ascii=1, il=[0, 1], ck=[0, 1], tm=1, bound="--json with the binary format options")
PROPS["C15"] = dict(harness=["cli.cc"], cli=1, quick=C15q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C16 VCD_TARGET policy
C16q = (
  grid("dec_ref", sh=0, n=range(1, 10), allow=0, ver=[0, 83], bound="every short delta with target windows forbidden")
  + grid("dec_ref", sh=1, allow=0, fl=[0, 1, 2, 3], t=4, d=1, i=1, a=1, sl=4, sp=0)
  + grid("dec_ref", sh=1, allow=[0, 1], fl=1, t=6, d=2, i=1, a=1, w2=1, fl2=[0, 1, 2, 3], t2=5, d2=1, i2=1, a2=1, sl2=2, sp2=0)
  + grid("dec_ref", sh=3, allow=[0, 1], wins=2, fl2=[0, 1, 2], sp=0)
  + grid("dec_chunk", sh=3, allow=[0, 1], wins=2, fl2=[1, 2], sp=0, m=[1, 2])
  + grid("dec_chunk", sh=0, n=[3, 5, 7], allow=0, m=[1, 2], ver=[0, 83])
  + grid("dec_ref", sh=6, allow=[0, 1], ver=[0, 83], wz=2, wy=2, wt1=[0, 1, 6], wt2=[0, 1, 2, 5], ws2=[1, 2], dict=[0, 3, 16], bound="a second window with an arbitrary source segment")
  + grid("dec_ref", sh=6, allow=[0, 1], ver=[0, 83], wz=2, wy=0, wt1=4, wt2=[0, 1], ws2=2, dict=[3, 60], bound="a second window with an arbitrary source segment of 50 bytes of output")
  + grid("dec_ref", sh=6, allow=[0, 1], ver=[0, 83], nw=1, wz=1, wy=1, wt1=[0, 1], dict=[0, 3, 16], bound="a first window with an arbitrary source segment")
  + grid("dec_ref", sh=6, allow=[0, 1], ver=83, nw=3, wz=4, wy=0, wt1=0, wt3=[0, 1], ws3=2, ws1=[1, 2], dict=16, bound="a third window with an arbitrary segment of earlier output")
  + grid("dec_chunk", sh=6, allow=[0, 1], ver=83, wz=2, wy=2, wt1=0, wt2=[0, 1], ws2=2, dict=[3, 16], m=[1, 2], bound="the same in pieces")
)
PROPS["C16"] = dict(harness=["dec.cc", "dec2.cc"], hflags=["-DREF_CUSTOM"], quick=C16q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C17 encoder safety
C17q = (
  reent([x for x in C01q if x["p"].get("n", 0) < 60000 and x["p"].get("L", 0) < 60000], "enc_safe", drop=("chunks",))
  + grid("enc_safe", ["ok"], n=[0, 1, 9], dn=[0, 1, 2, 15, 16, 17, 31, 33], flags=[0, 1], chunks=[1, 2])
  + grid("enc_safe", ["ok"], tk=1, L=[32, 33, 47, 48], offs=3, p=1, q=1, dn=[50, 51, 64, 65], flags=[0, 1], chunks=[1, 2])
)
PROPS["C17"] = dict(harness=["enc.cc"], hflags=ENC_HF, ub=1, quick=C17q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- C18 efficacy
C18q = (
  grid("enc_rec", ["ok", "eff"], eff=1, tk=1, L=[32, 33, 47, 48, 60], offs=33, dn=96, p=[0, 1], q=[0, 1], match=[0, 1], bound="any dictionary run of at least 32 bytes between arbitrary bytes")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=3, L=[32, 33, 40, 47, 64], p=1, q=[0, 1], bound="a repeat inside the target")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=7, dn=[2000, 20000], off=[0, 1, 15, 900], L=[32, 47, 100, 500], p=[0, 1, 17], q=[0, 9], instr=100000000)
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=14, dk=8, dn=400, L=[34, 50, 60], p=[0, 1], q=[0, 1], match=[0, 1], bound="the run competes with shorter matches that share its first block")
  + grid("enc_small", ["ok"], tk=7, dn=[2000, 20000], off=[0, 1, 15, 900], L=[60, 500], p=3, q=3, flags=[0, 1, 2, 3], instr=100000000)
  + grid("enc_small", ["ok"], tk=1, L=[32, 60], offs=16, dn=96, p=1, q=1, flags=[0, 1], chunks=[0, 1])
)
C18q += (
  grid("enc_rec", ["ok", "eff"], eff=1, tk=[11, 12], n=[32, 48], L=[32, 48], offs=17, dn=80, p=1, q=1, bound="dictionary run next to a repeated literal")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=13, L=[32, 48], p=1, q=[17, 20], bound="a literal three times")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=1, dk=7, dn=[144, 160], off=80, offs=17, L=[32, 47], p=1, q=1, bound="a run whose blocks share a hash chain with three others")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=15, dk=9, pre=[33, 40], L=[48, 60, 70], dat=[37, 48], dn=[100, 400], p=1, q=1, bound="a repeat in the target whose beginning is also in the dictionary")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=7, dn=1000, offs=900, L=[32, 48], p=3, q=3, bound="every run of a 1000-byte dictionary")
)
C18q += (
  grid("enc_rec", ["ok", "eff"], eff=1, tk=7, dn=20000, off=[10000, 19000, 19900], L=[32, 48, 100], p=3, q=3, instr=200000000, bound="runs near the end of a large dictionary")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=7, dn=140000, off=[70000, 139000], L=[32, 48, 100], p=3, q=3, instr=400000000, bound="runs near the end of a large dictionary")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=3, dn=[20000, 70000, 140000], L=[32, 48], p=1, q=1, instr=400000000, bound="repeats in the target next to a large dictionary")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=13, dn=[20000, 70000, 140000], L=[32, 48], p=1, q=17, instr=400000000, bound="repeats in the target next to a large dictionary")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=7, dn=600000, off=[300000, 599000], L=48, p=3, q=3, instr=900000000, bound="runs near the end of a 600 kB dictionary")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=16, dn=600000, off=[0, 200000, 595000], n=130, st=37, L=32, instr=900000000, bound="130 runs from a 600 kB dictionary")
  + grid("enc_rec", ["ok", "eff"], eff=1, tk=16, dn=600000, off=0, n=130, st=4597, L=32, instr=900000000, bound="130 runs from a 600 kB dictionary")
)
PROPS["C18"] = dict(harness=["enc.cc", "encw.cc"], hflags=ENC_HF + ["-DDICT_MAX=650000"], quick=C18q, thorough=[], bounds="x", outside="x")

# ---------------------------------------------------------------- long histories
MANYC = [x for f in (0, 1, 2, 3) for x in grid("rt_main", ["ok"], tk=7, dn=1200, off=300, L=516, p=5, q=3, cs=[16, 40, 129], flags=f, bound="many chunks of cs bytes") + grid("rt_main", ["ok"], tk=13, L=50, p=0 if f & 2 else 1, q=17, dn=[0, 40], cs=[1, 9, 60], flags=f, bound="many chunks of cs bytes")]
PROPS["C01"]["quick"] += MANYC
PROPS["C11"]["quick"] += reent(MANYC, "rt_ref")
MANYW = grid("dec_ref", ["accept"], sh=6, nw=[20, 60], cyc=[1, 3, 5], ver=[0, 83], bound="20 or 60 windows of all kinds, the last with arbitrary operands")
PROPS["C03"]["quick"] += MANYW
PROPS["C04"]["quick"] += reent(MANYW, "dec_chunk", ["accept"], m=1) + reent(MANYW, "dec_chunk", ["accept"], m=29)
PROPS["C02"]["quick"] += reent(MANYW, "dec_safe", ["accept"], m=11)
PROPS["C16"]["quick"] += reent(MANYW, "dec_ref", [], allow=0)
PROPS["C13"]["quick"] += grid("dec_reuse", k0=[0, 2, 5, 7], k1=[1, 3, 4, 6], k2=[0, 5], how=0, c0=[0, 1], bound="three jobs through one decoder")
PROPS["C18"]["quick"] += grid("enc_small", ["ok"], tk=7, dn=2000, off=[0, 15], L=[32, 100], p=[33, 60], q=3, flags=[0, 1, 2, 3], chunks=2, cut=[1, 17, 32], bound="the run lies in the second chunk") + grid("enc_small", ["ok"], tk=12, n=40, L=40, p=0, q=1, dn=80, flags=[0, 1], chunks=2, cut=0, bound="repeats in the chunk after an empty one")

# ---------------------------------------------------------------- bounds, what lies outside, assumptions
def note(p, bounds, outside, assume=()):
    PROPS[p]["bounds"], PROPS[p]["outside"] = bounds, outside
    if assume: PROPS[p]["assume"] = list(assume)
ENC_OUT = "targets with more than 15 arbitrary bytes at once; arbitrary bytes spread over a hashed 16-byte block other than the one or two placed ones; data larger than 140 000 bytes; dictionaries of more than the listed shapes"
DEC_OUT = "deltas with more arbitrary bytes than the instances have (9 free bytes after the header, or the listed numbers of operand and section bytes); windows larger than 40 000 bytes; more than two windows with arbitrary contents (up to 60 with fixed contents and one arbitrary)"
note("C01", PROPS["C01"]["bounds"], ENC_OUT)
note("C02", "every delta of up to 10 bytes after the file header and up to 7 bytes including it, whole, byte by byte and cut anywhere; windows with up to 6 arbitrary section bytes; programs with arbitrary 5-byte sizes and addresses; custom tables with one arbitrary entry and extreme cache sizes", DEC_OUT, ["a debug build ends the process on impossible address-cache sizes in a custom code table, as the repository's own death tests require; that exit is not counted as an abort", "undefined behaviour is what clang's signed-overflow, shift, division, bool, enum, unreachable and return sanitizers and the engine's bounds, use-after-free and uninitialised-branch checks define"])
note("C03", "every delta of up to 9 bytes after the file header and up to 7 bytes including it, both versions; windows with arbitrary section contents; about 60 programs covering every opcode class, address mode and size form with arbitrary operands, in separate and interleaved layout; truncation anywhere", DEC_OUT + "; a zero-length delta is left unspecified")
note("C04", "every delta of up to 8 bytes after the header cut anywhere in two, up to 7 in three, byte by byte, with empty pieces; interleaved and standard windows and programs with arbitrary operands cut anywhere or in fixed steps; custom code tables in steps of 1, 7 and 64 bytes", DEC_OUT + "; more than three irregular pieces")
note("C05", "all 8-bit limits with all announced sizes up to 2^31-1 after up to two complete windows; all 64-bit limits with up to one; every delta of up to 8 free bytes under limits up to 12", "more than two complete windows before the refused one; window bodies other than a RUN in the 64-bit case; a window above 2^24 bytes that fits the raised limits")
note("C06", "every buffer of up to 100 bytes (up to 33 for splits); long buffers up to 20 000 bytes with one or two arbitrary bytes in fixed contents; any one dictionary byte corrupted; any single wrong bit of the stored checksum; chunks cut anywhere", "long buffers with more than two arbitrary bytes; windows above 20 000 bytes; multi-byte corruption (Adler-32 does not promise to detect it)")
note("C07", "all 31- and 63-bit values; every byte string of up to 7 (32-bit) and 11 (64-bit) bytes; header fields over every string of up to 10 bytes", "nothing within the two integer types; strings longer than 11 bytes")
note("C08", "sequences of up to three arbitrary addresses (8-bit magnitude times the cache modulus, chosen residues, or 20-bit) at arbitrary or extreme positions up to 2^31-1, cache sizes 0/1/4 near and 0/1/3 same; decoding of any mode and byte after up to six cached addresses, cache sizes up to 8/3; addresses of up to 6 bytes; all cache-size pairs for construction", "longer address sequences; residues other than the eight listed per address; caches above 8 entries in sequences")
note("C09", "every pair of instructions with sizes 1..20 and every triple with sizes 1..6; single instructions of every size up to 300 and around 2^14 and 2^16; COPY addresses around the varint boundaries; two windows per writer; several custom tables; all lookups of the instruction map; every value of every entry of the default table for validation", "sequences of four or more arbitrary instructions; more than one changed entry of a table; data bytes are arbitrary only in short ADDs")
note("C10", "the encoder instances of C01 observed at the instruction level; all sequences of five blocks over all dictionaries of two block kinds; arbitrary dictionary tail bytes; rolling hash for all blocks of 4 and 16 bytes and one or two steps", ENC_OUT)
note("C11", "as C01, judged by an independent decoder in harness/ref.h", ENC_OUT)
note("C12", "the default table with any one value in 30 positions (all columns) or two adjacent ones, cache sizes 1, 2, 4 and 8, followed by a window with arbitrary section bytes; reuse of the decoder after a custom table", "tables that differ in more than two entries; table deltas in other encodings than COPY-ADD-COPY; cache sizes above 8 beyond the safety check of C02", ["a debug build ends the process on impossible address-cache sizes, as the repository's own death tests require"])
note("C13", "decoder: all pairs of six kinds of delta with arbitrary operands, the first abandoned anywhere or fed bytewise; encoder: six histories with literal, matching and repetitive first targets; two encoders interleaved; out-of-order calls", "histories of four or more jobs; true concurrency (the code has no shared mutable state besides the dictionary, which is only read)", ["compiled with NDEBUG so that misuse is reported by return value rather than by the debug build's fatal log message"])
note("C14", "every target of up to 3 bytes; dictionary runs with one arbitrary byte; every sequence of up to three instructions with arbitrary data bytes; sizes and addresses up to 130", "longer arbitrary literals; empty targets (out of the property)")
note("C15", "the command's code with its stdio calls redirected to an in-memory file system; any single failing operation; all option combinations of the instances; buffer sizes from 1 to beyond the file; files up to 40 bytes; one arbitrary target byte or arbitrary short deltas", "two or more I/O failures; files larger than the instances'; the real gflags parser (a stand-in parses the same syntax); ftell failure")
note("C16", "every delta of up to 9 bytes after the header with the setting off; one and two windows with arbitrary section contents, all indicator values, both settings", DEC_OUT)
note("C17", "the C01 instances below 60 000 bytes and all small dictionary and target sizes, in exactly sized heap blocks, with undefined-behaviour traps", ENC_OUT)
note("C18", "runs of 32 to 500 bytes at every offset modulo the block size, in dictionaries of 96 to 600 000 bytes of unrelated content, between arbitrary bytes; repeats within one chunk; runs in the second chunk", "dictionaries with many similar blocks (the search is deliberately limited there); runs shorter than 32 bytes")

# ---------------------------------------------------------------- thorough tier: quick plus deeper instances
DEEP = {
 "C01": grid("rt_main", ["ok"], n=15, dn=[0, 15, 16, 33], flags=[0, 1], chunks=[1, 2, 3])
   + grid("rt_main", ["ok"], tk=6, n=6, dk=3, dn=[64, 96], q=1, flags=[0, 1]) + grid("rt_main", ["ok"], tk=1, L=50, offs=47, dn=97, p=2, q=2, flags=[0, 1, 2, 3], chunks=2)
   + grid("rt_main", ["ok"], tk=2, L=[64, 100], offs=17, dn=120, q=3, flags=[0, 1], chunks=[1, 2]) + grid("rt_main", ["ok"], tk=9, n=[33, 47, 130, 400], per=[1, 2, 3], dn=[0, 64], flags=[0, 1]),
 "C02": grid("dec_safe", sh=0, n=[11, 12], ver=[0, 83], m=[0, 1]) + grid("dec_safe", sh=0, n=[9, 10], m=[2, 3], ver=[0, 83]) + grid("dec_safe", sh=2, n=[8, 9, 10], m=[0, 1, 2])
   + grid("dec_safe", sh=1, fl=[0, 1, 2], d=3, i=3, a=2, t=[6, 40]) + grid("dec_safe", sh=4, near=4, same=3, pos=range(0, 1536, 64), k=2, i=2, d=1, a=1),
 "C03": grid("dec_ref", sh=0, n=[10, 11], ver=[0, 83]) + grid("dec_ref", sh=2, n=[8, 9, 10]) + grid("dec_ref", sh=1, fl=[0, 1], t=[3, 8, 24], d=3, i=3, a=[0, 1, 2])
   + grid("dec_ref", sh=1, fl=1, t=6, d=2, i=2, a=1, w2=1, fl2=[0, 1, 2], t2=5, d2=1, i2=1, a2=1),
 "C04": grid("dec_chunk", sh=0, n=[9, 10], m=[2, 3], ver=[0, 83]) + grid("dec_chunk", sh=2, n=[8, 9], m=[2, 3]) + grid("dec_chunk", sh=3, m=[2, 3], mode=[0, 1, 3], wins=2, ck=0, cpd=1) + grid("dec_chunk", sh=4, m=2, near=4, same=3, pos=512 + 163, k=1, t=5, d=1, i=1, a=1)
   + progs("dec_chunk", lambda k: k.get("t") < 130 and k.get("sb1", 0) < 3, m=3),
 "C05": grid("lim_hdr", k=[3, 4], nb=[1, 5], il=[0, 1], late=[0, 1], tmax=3) + grid("lim_hdr", k=2, nb=5, il=[0, 1], late=[0, 1], big=1) + grid("lim_free", sh=0, n=[9, 10], ver=[0, 83]) + grid("lim_free", sh=1, fl=1, sl=4, sp=0, t=[4, 12], d=2, i=2, a=1),
 "C06": grid("ck_win", ["accepted", "rejected"], il=[0, 1], n=[5, 9]) + grid("ck_def", ["ok"], n=[200, 400, 1000], k=2000) + grid("ck_inc", ["ok"], n=64, k=200) + grid("ck_one", ["ok"], n=[33, 64], k=[1, 2, 3]),
 "C07": grid("vi_field", n=[11, 12, 13], kind=range(4)) + grid("vi_parse64", n=[12, 13, 14]),
 "C08": grid("ac_lock", k=3, q=8, hd=1, res=[2, 3], r0=[0, 3, 5], near=[1, 4], same=[1, 3]) + grid("ac_lock", k=2, q=8, hd=1000, near=[0, 1, 4], same=[0, 1, 3]) + grid("ac_dec", k=[7, 8, 9], n=1, res=1, q=8, hc=150000) + grid("ac_dec", k=2, n=[2, 3], mode=range(9), cont=1, near=4, same=3, hc=[2147483647, 100000]),
 "C09": grid("tw_seq", ["ok"], k=4, hi1=5, hi2=5, hi3=5, hi4=5, ah1=0, ah2=0, ah3=0, ah4=0, il=[0, 1]) + grid("tw_seq", ["ok"], k=2, hi1=40, hi2=40, il=[0, 1], dn=100) + grid("tw_seq", ["ok"], k=3, hi1=8, hi2=8, hi3=8, ah1=1, ah2=1, ah3=1, il=[0, 1]),
 "C10": grid("enc_rec", ["ok"], tk=6, n=7, dk=3, dn=[64, 96], q=1, match=[0, 1]) + grid("enc_rec", ["ok"], tk=1, dk=4, tail=3, dn=[48, 63], L=33, off=0, offs=6, Ls=6, p=1, q=1) + grid("enc_rec", ["ok"], tk=9, n=[33, 64, 130], per=[1, 2, 3], dn=[0, 48]),
 "C11": grid("rt_ref", ["ok"], n=15, dn=[0, 16, 33], flags=[0, 1], chunks=[1, 2, 3]) + grid("rt_ref", ["ok"], tk=6, n=6, dk=3, dn=64, q=1, flags=[0, 1]) + grid("rt_ref", ["ok"], tk=1, L=50, offs=47, dn=97, p=2, q=2, flags=[0, 1, 2, 3], chunks=2),
 "C12": grid("dec_ref", sh=4, near=4, same=3, pos=range(0, 1536, 5), k=1, t=5, d=2, i=1, a=1) + grid("dec_ref", sh=4, near=4, same=3, pos=[160, 512 + 160, 1024 + 160], k=3, t=5, d=1, i=1, a=1) + grid("dec_ref", sh=4, near=range(1, 9), same=range(1, 9), pos=1280 + 163, k=1, t=5, d=1, i=1, a=1),
 "C13": grid("dec_reuse", k1=range(6), k2=range(6), how=[0, 1, 2], nofin=[0, 1], allow=[0, 1]) + grid("enc_reuse", ["ok"], how=range(6), flags=[0, 1], tk=[1, 3, 6], n=3, L=40, p=1, q=1, uk=[0, 1, 2], un=[1, 33, 100], chunks=[1, 2, 3]),
 "C14": grid("js_enc", ["ok", "nonascii"], how=[0, 1], n=4, dn=[1, 16, 64]) + grid("js_seq", ["ok"], k=3, lo=1, hi=2) + grid("js_seq", ["ok"], k=4, lo=1, hi=1, flush=[0, 1]),
 "C15": grid("cli_enc", faults=1, buf=range(1, 42, 4), stdin=[0, 1], stdout=[0, 1], il=[0, 1], ck=[0, 1], symt=0) + grid("cli_dec", sh=3, wins=2, faults=1, buf=range(1, 60, 3), stdin=[0, 1], stdout=[0, 1]) + grid("cli_dec", sh=0, n=[8, 9], ver=[0, 83], buf=[0, 3]) + grid("cli_test", faults=1, buf=range(1, 42, 4), il=[0, 1], ck=[0, 1], symt=0),
 "C16": grid("dec_ref", sh=0, n=[10, 11], allow=0, ver=[0, 83]) + grid("dec_chunk", sh=0, n=[8, 9], allow=0, m=[1, 2, 3], ver=[0, 83]),
 "C17": grid("enc_safe", ["ok"], n=15, dn=range(0, 50), flags=[0, 1], chunks=[1, 2]) + grid("enc_safe", ["ok"], tk=1, L=range(30, 50), offs=17, p=1, q=1, dn=[50, 64, 65, 81], flags=[0, 1], chunks=1),
 "C18": grid("enc_rec", ["ok", "eff"], eff=1, tk=1, L=range(32, 65), offs=33, dn=130, p=[0, 1, 2], q=[0, 1, 2], match=[0, 1]) + grid("enc_rec", ["ok", "eff"], eff=1, tk=3, L=range(32, 80), p=1, q=1),
}
for p in PROPS: PROPS[p]["thorough"] = PROPS[p]["quick"] + DEEP[p]
