#!/usr/bin/env python3
"""C28: the table generators write what the Unicode data files say.

Runs the real scripts (in a scratch copy of the sources) over enumerated data files and
operation histories, decodes the tables they wrote and compares them with the data.
"""
import contextlib, hashlib, io, itertools, json, multiprocessing, os, re, runpy, shutil, struct, subprocess, sys, time, types, zlib

BUILD = os.getcwd()
REPO = os.environ.get("C28_REPO", "/repo")
REFDATA = os.environ["C28_REFDATA"]
TH = os.environ.get("VERIF_TIER") == "thorough"
MAX = 0x110000
WIDTHS = {"idna_stage1": 2, "idna_stage2": 2, "idna_bool_blocks": 8, "idna_utf8_mappings": 1, "decomposition_index": 1, "decomposition_block": 2,
          "decomposition_data": 4, "ccc_index": 1, "ccc_block": 1, "composition_index": 1, "composition_block": 2, "composition_data": 4,
          "id_continue_flat": 4, "id_start_flat": 4, "dir_start": 4, "dir_final": 4, "dir_value": 1, "combining_flat": 4}
FMT = {1: "B", 2: "H", 4: "I", 8: "Q"}


class Wrong(Exception):
    pass


# ------------------------------------------------------------------ scratch trees
def make_tree(path, small):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path + "/cwd")
    for d in ("src", "include", "scripts"):
        shutil.copytree(os.path.join(REPO, d), os.path.join(path, d), ignore=shutil.ignore_patterns("__pycache__", "*.txt") if d == "scripts" else None)
    if small:  # a small blob: the generators must carry over whatever the other sections hold
        t = open(path + "/src/table_blob.inc").read()
        secs, _ = read_blob(t)
        for n in secs:
            if n not in ("idna_stage1", "idna_stage2", "idna_bool_blocks", "idna_utf8_mappings"):
                cols = 257 if n in ("decomposition_block", "composition_block") else 256 if n == "ccc_block" else 0
                secs[n] = secs[n][:2 * cols] if cols else secs[n][:62]
        script(path, "pack_api", sections=secs)
    return path


_web = {}


class _Response:
    def __init__(self, b):
        self.content = b
        self.text = b.decode()
        self.status_code = 200
        self.ok = True

    def raise_for_status(self):
        pass


def _get(url, *a, **kw):
    for k, v in _web.items():
        if url.rstrip("/").endswith(k):
            return _Response(v.encode())
    raise RuntimeError("unexpected download " + url)


def script(tree, name, args=(), files=None, cached=True, cwd=None, sections=None):
    """Run one of the repository's scripts as its command line would; returns (ok, output)."""
    cwd = cwd or tree + "/cwd"
    for f in os.listdir(tree + "/cwd"):
        os.remove(tree + "/cwd/" + f)
    _web.clear()
    for k, v in (files or {}).items():
        if cached:
            open(os.path.join(cwd, k), "w").write(v)
        else:
            _web[k] = v
    req = types.ModuleType("requests")
    req.get = _get
    saved = (sys.argv, os.getcwd(), list(sys.path), sys.modules.get("requests"))
    out = io.StringIO()
    try:
        os.chdir(cwd)
        sys.modules["requests"] = req
        for m in ("pack_tables", "idna_table", "derived_table"):
            sys.modules.pop(m, None)
        sys.path[:] = [p for p in saved[2] if "/scripts" not in p]
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            if name == "pack_api":
                sys.path.insert(0, tree + "/scripts")
                import pack_tables
                pack_tables.write_blob(dict(sections))
            else:
                p = tree + "/scripts/" + name + ".py"
                sys.argv = [p, *args]
                sys.path.insert(0, tree + "/scripts")
                try:
                    runpy.run_path(p, run_name="__main__")
                except SystemExit as e:
                    if e.code not in (None, 0):
                        return False, str(e.code)
        return True, out.getvalue()
    except Exception as e:  # the script refused
        return False, "%s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = saved[0]
        os.chdir(saved[1])
        sys.path[:] = saved[2]
        if saved[3] is None:
            sys.modules.pop("requests", None)
        else:
            sys.modules["requests"] = saved[3]
        for f in os.listdir(tree + "/cwd"):
            os.remove(tree + "/cwd/" + f)


# ------------------------------------------------------------------ decoding what was written
def read_blob(text):
    num = {m.group(1): int(m.group(2), 0) for m in re.finditer(r"constexpr\s+\w+\s+(\w+)\s*=\s*(0x[0-9A-Fa-f]+|\d+)", text)}
    m = re.search(r"compressed\[\]\s*=\s*\{(.*?)\}", text, re.S)
    comp = bytes(int(x, 16) for x in re.findall(r"0x([0-9a-fA-F]+)", m.group(1)))
    if len(comp) != num["compressed_size"]:
        raise Wrong("compressed_size does not match the array")
    try:
        d = zlib.decompressobj(-15)
        plain = d.decompress(comp) + d.flush()
    except zlib.error as e:
        raise Wrong("the compressed tables do not expand: %s" % e)
    if not d.eof or d.unused_data or len(plain) != num["uncompressed_size"]:
        raise Wrong("the compressed tables do not expand to uncompressed_size bytes")
    if zlib.crc32(plain) != num["uncompressed_crc32"]:
        raise Wrong("uncompressed_crc32 does not match the tables")
    secs, used = {}, []
    for n, w in WIDTHS.items():
        off, cnt = num["off_" + n], num["count_" + n]
        if off % w or off + cnt * w > len(plain):
            raise Wrong("section %s is misplaced" % n)
        used.append((off, off + cnt * w, n))
        secs[n] = list(struct.unpack("<%d%s" % (cnt, FMT[w]), plain[off:off + cnt * w]))
    used.sort()
    for a, b in zip(used, used[1:]):
        if a[1] > b[0]:
            raise Wrong("sections %s and %s overlap" % (a[2], b[2]))
    for c, n in (("id_continue_count", "id_continue_flat"), ("id_start_count", "id_start_flat"), ("combining_range_count", "combining_flat")):
        if num[c] * 2 != len(secs[n]):
            raise Wrong(c + " does not match " + n)
    if num["dir_table_count"] != len(secs["dir_start"]):
        raise Wrong("dir_table_count does not match dir_start")
    for n in ("decomposition_block", "ccc_block", "composition_block"):
        if num[n + "_rows"] * num[n + "_cols"] != len(secs[n]):
            raise Wrong("rows and columns of %s do not match" % n)
    return secs, num


def read_constants(text):
    return {m.group(1): int(m.group(2), 0) for m in re.finditer(r"constexpr\s+\w+\s+(IDNA_\w+)\s*=\s*(0x[0-9A-Fa-f]+|\d+)", text)}


def utf8_at(tab, i):
    e = i
    while e < len(tab) and tab[e]:
        e += 1
    if e >= len(tab):
        raise Wrong("mapping string at %d is not terminated" % i)
    return tuple(ord(c) for c in bytes(tab[i:e]).decode("utf-8", "surrogatepass"))


def decode_mapping(k, s1, s2, bw, u8t):
    """Block-wise view of the lookup in mapping.cpp: list of (value per code point) blocks, then the ignored range."""
    bs, bits = k["IDNA_BLOCK_SIZE"], k["IDNA_BLOCK_BITS"]
    if bs != 1 << bits or k["IDNA_BLOCK_MASK"] != bs - 1 or k["IDNA_LOW_RANGE_END"] % bs:
        raise Wrong("inconsistent block constants")
    n = k["IDNA_LOW_RANGE_END"] >> bits
    if len(s1) < n:
        raise Wrong("stage 1 has %d entries, %d are looked up" % (len(s1), n))
    cache, strings = {}, {}
    out = []
    for bi in range(n):
        ref = s1[bi]
        if ref not in cache:
            blk = []
            for j in range(bs):
                if ref & k["IDNA_BOOL_FLAG"]:
                    b = (ref & ~k["IDNA_BOOL_FLAG"]) * bs + j
                    if b >> 6 >= len(bw):
                        raise Wrong("bool block out of range")
                    blk.append("V" if bw[b >> 6] >> (b & 63) & 1 else "D")
                else:
                    if ref + j >= len(s2):
                        raise Wrong("stage 2 index out of range")
                    v = s2[ref + j]
                    if v == k["IDNA_VALID"]:
                        blk.append("V")
                    elif v == k["IDNA_DISALLOWED"]:
                        blk.append("D")
                    else:
                        if v >= len(u8t):
                            raise Wrong("mapping offset out of range")
                        if v not in strings:
                            strings[v] = utf8_at(u8t, v)
                        blk.append(strings[v])  # () = ignored
            cache[ref] = blk
        out.append(cache[ref])
    return bs, out, (k["IDNA_HIGH_IGNORED_START"], k["IDNA_HIGH_IGNORED_END"])


def check_mapping(entries, dec):
    bs, blocks, (hs, he) = dec
    n = len(blocks) * bs
    exp = {}
    rest = []
    runs = sorted((lo, hi, v) for lo, hi, v in entries if v != "D")
    for lo, hi, v in runs:
        b0, b1 = lo // bs, hi // bs
        for bi in range(b0, min(b1, len(blocks) - 1) + 1):
            a, b = max(lo, bi * bs), min(hi, bi * bs + bs - 1)
            if a == bi * bs and b == bi * bs + bs - 1:
                exp[bi] = (v,)
                continue
            e = exp.setdefault(bi, None)
            if e is None:
                e = exp[bi] = ["D"] * bs
            for c in range(a, b + 1):
                e[c - bi * bs] = v
        if hi >= n:
            rest.append((max(lo, n), hi, v))
    memo = {}
    for bi, blk in enumerate(blocks):
        e = exp.get(bi, ("D",))
        if isinstance(e, tuple):
            key = (id(blk), e)
            if key not in memo:
                memo[key] = all(x == e[0] for x in blk)
            if memo[key]:
                continue
            e = [e[0]] * bs
        if e != blk:
            j = next(j for j in range(bs) if e[j] != blk[j])
            raise Wrong("U+%04X is %s in the data and %s in the tables" % (bi * bs + j, show(e[j]), show(blk[j])))
    # above the tables: one ignored range, everything else disallowed
    got = [(max(hs, n), he - 1)] if max(hs, n) < he else []
    got = [(a, min(b, MAX - 1)) for a, b in got if a < MAX]
    want = []
    for lo, hi, v in rest:
        if v != ():
            raise Wrong("U+%04X is %s in the data and %s in the tables" % (lo, show(v), "ignored" if hs <= lo < he else "disallowed"))
        if want and want[-1][1] + 1 == lo:
            want[-1] = (want[-1][0], hi)
        else:
            want.append((lo, hi))
    if got != want:
        raise Wrong("ignored above the tables: data %s, tables %s" % (want, got))


def show(v):
    return {"V": "valid", "D": "disallowed", (): "ignored"}.get(v) or "mapped to " + " ".join("%04X" % c for c in v)


def check_ranges(name, want, flat):
    got = [list(x) for x in zip(flat[::2], flat[1::2])]
    a, b = norm(want), norm(got)
    if got != sorted(got) or any(x[0] > x[1] for x in got) or any(x[1] >= y[0] for x, y in zip(got, got[1:])):
        raise Wrong("%s is not an ordered list of ranges: %s" % (name, got[:6]))
    if a != b:
        d = sorted(set(map(tuple, a)) ^ set(map(tuple, b)))
        raise Wrong("%s: tables and data differ around U+%04X..U+%04X" % (name, d[0][0], d[0][1]))


def norm(rs):
    out = []
    for lo, hi in sorted(rs):
        if out and out[-1][1] + 1 == lo:
            out[-1][1] = hi
        else:
            out.append([lo, hi])
    return out


# ------------------------------------------------------------------ data files
def rng(lo, hi):
    return "%04X" % lo if lo == hi else "%04X..%04X" % (lo, hi)


STATUS_TEXT = {"V": ["valid", "valid ;  ; NV8", "deviation ; 0073 0073", "disallowed_STD3_valid"], "D": ["disallowed"], (): ["ignored"]}


def idna_file(entries, style=0, version="17.0.0"):
    """entries: (lo, hi, 'V'|'D'|() ignored|(cps...) mapped), ordered; unlisted code points are written as disallowed."""
    out = ["# IdnaMappingTable.txt", "# Date: 2025-01-01, 00:00:00 GMT", "#", "# Version: " + version, "#", "# Code points; status; mapping", ""]
    pos = 0
    full = []
    for lo, hi, v in entries:
        if lo > pos:
            full.append((pos, lo - 1, "D"))
        full.append((lo, hi, v))
        pos = hi + 1
    if pos < MAX:
        full.append((pos, MAX - 1, "D"))
    for i, (lo, hi, v) in enumerate(full):
        if v == "D" and style & 1:
            continue  # a file may also leave disallowed code points out
        if isinstance(v, tuple) and v:
            st = ("disallowed_STD3_mapped ; " if style & 2 else "mapped ; ") + " ".join("%04X" % c for c in v)
        else:
            st = STATUS_TEXT[v]
            st = st[(i + style // 2) % len(st)] if v == "V" else st[0]
        out.append("%-14s; %-40s # 1.1  NAME; OF <%d>" % (rng(lo, hi), st, i))
        if i % 3 == 0:
            out.append("")
    out += ["", "# Total code points: 1114112", "", "# EOF"]
    return "\n".join(out) + "\n"


def derived_file(start, cont, style=0):
    out = ["# DerivedCoreProperties-17.0.0.txt", "# Date: 2025-01-01", "", "# Derived Property: Alphabetic", "0041..005A    ; Alphabetic # L&  [26] X..Y",
           "E000          ; Alphabetic # Co", "", "# Total code points: 27", ""]
    for name, rs in (("ID_Start", start), ("ID_Continue", cont), ("XID_Start", [(0x61, 0x7A)]), ("XID_Continue", [(0x62, 0x7B)])):
        out += ["# ================================================", "", "# Derived Property: " + name, "#  Characters that can ...; see UAX #31", "#  Generated from: A + B", ""]
        for i, (lo, hi) in enumerate(rs):
            pieces = [(lo, hi)]
            if style and hi > lo:  # the files list one line per general category
                m = (lo + hi) // 2
                pieces = [(lo, m), (m + 1, hi)]
            for a, b in pieces:
                out.append("%-14s; %s # L&  [%d] SOME; NAME..OTHER NAME" % (rng(a, b), name, b - a + 1))
        out += ["", "# Total code points: %d" % sum(b - a + 1 for a, b in rs), ""]
    out += ["# EOF"]
    return "\n".join(out) + "\n"


# ------------------------------------------------------------------ one case
_tree = {}


def tree(small=True):
    key = (os.getpid(), small)
    if key not in _tree:
        _tree[key] = make_tree("%s/tree-%d-%d" % (BUILD, os.getpid(), small), small)
        _tree["base", small] = read_blob(open(_tree[key] + "/src/table_blob.inc").read())[0]
    return _tree[key]


MAPSECS = {"idna_stage1", "idna_stage2", "idna_bool_blocks", "idna_utf8_mappings"}
IDSECS = {"id_continue_flat", "id_start_flat"}


def carried(before, after, but):
    for n in WIDTHS:
        if n not in but and before[n] != after[n]:
            raise Wrong("section %s changed although its data did not" % n)


def printed_arrays(text):
    out = {}
    for m in re.finditer(r"(\w+)\[(\d+)\](\[2\])?\s*=\s*\{(.*?)\};", text, re.S):
        vals = [int(x.rstrip("ULul"), 0) for x in re.findall(r"0x[0-9A-Fa-f]+[ULul]*|\b\d+\b", m.group(4))]
        if len(vals) != int(m.group(2)) * (2 if m.group(3) else 1):
            raise Wrong("printed array %s has %d values, declared %s" % (m.group(1), len(vals), m.group(2)))
        out[m.group(1)] = vals
    return out


def run_mapping(entries, style=0, cached=True, must=None, prints=False, small=True):
    """Returns an outcome string; raises Wrong."""
    t = tree(small)
    text = idna_file(entries, style)
    blob0 = open(t + "/src/table_blob.inc").read()
    before = read_blob(blob0)[0]
    ok, msg = script(t, "idna_table", ["--write"], {"IdnaMappingTable.txt": text}, cached)
    blob1 = open(t + "/src/table_blob.inc").read()
    if not ok:
        if must:
            raise Wrong("the generator refused: " + msg)
        if blob1 != blob0:
            raise Wrong("the generator refused (%s) but changed the tables" % msg)
        return "refused", 1
    after = read_blob(blob1)[0]
    k = read_constants(open(t + "/src/mapping_tables.cpp").read())
    check_mapping(entries, decode_mapping(k, after["idna_stage1"], after["idna_stage2"], after["idna_bool_blocks"], after["idna_utf8_mappings"]))
    carried(before, after, MAPSECS)
    if prints:
        ok, out = script(t, "idna_table", [], {"IdnaMappingTable.txt": text}, cached)
        if not ok:
            raise Wrong("printing the tables failed: " + out)
        a = printed_arrays(out)
        check_mapping(entries, decode_mapping(read_constants(out), a["idna_stage1"], a.get("idna_stage2", []), a.get("idna_bool_blocks", []), a["idna_utf8_mappings"]))
        if open(t + "/src/table_blob.inc").read() != blob1:
            raise Wrong("printing changed the tables")
    return hashlib.md5(blob1.encode()).hexdigest(), 2 if prints else 1


def run_derived(start, cont, style=0, cached=True, prints=False):
    t = tree()
    text = derived_file(start, cont, style)
    before = read_blob(open(t + "/src/table_blob.inc").read())[0]
    ok, msg = script(t, "derived_table", ["--write"], {"DerivedCoreProperties.txt": text}, cached)
    if not ok:
        raise Wrong("the generator refused: " + msg)
    blob1 = open(t + "/src/table_blob.inc").read()
    after = read_blob(blob1)[0]
    check_ranges("ID_Start", start, after["id_start_flat"])
    check_ranges("ID_Continue", cont, after["id_continue_flat"])
    carried(before, after, IDSECS)
    if prints:
        ok, out = script(t, "derived_table", [], {"DerivedCoreProperties.txt": text}, cached)
        if not ok:
            raise Wrong("printing the tables failed: " + out)
        if start and cont:
            a = printed_arrays(out)
            check_ranges("printed ID_Start", start, a["id_start"])
            check_ranges("printed ID_Continue", cont, a["id_continue"])
    return hashlib.md5(blob1.encode()).hexdigest(), 2 if prints else 1


# ------------------------------------------------------------------ the spaces
KINDS = ["V", "D", (), (0x61,), (0xDF,), (0x20AC, 0x301), (0x1F600,), (0x10FFFF, 0x7F, 0x80)]
SPOTS = [(0, 0), (0x3F, 0x40), (0x40, 0x7F), (0x41, 0x5A), (0x80, 0x80), (0x100, 0x1FF), (0x2FC0, 0x3001), (0xD800, 0xDFFF), (0xFFFF, 0x10000), (0x1FFFF, 0x2003F), (0xDFFFF, 0xDFFFF)]
HIGH = [None, (0xE0000, 0xE0FFF), (0xE0100, 0xE01EF), (0xE0120, 0xE0120), (0x10FFFF, 0x10FFFF)]


def pair_spots():
    return [(a, b) for a, b in itertools.combinations(SPOTS, 2) if a[1] < b[0]]


BLOCKKIND = {
    0: lambda b: [(b, b + 63, "V")], 1: lambda b: [], 2: lambda b: [(c, c, "V") for c in range(b, b + 64, 2)], 3: lambda b: [(b, b + 63, ())],
    4: lambda b: [(b, b + 30, "V"), (b + 31, b + 31, (0x61,)), (b + 63, b + 63, "V")], 5: lambda b: [(b + 31, b + 31, (0x61,)), (b + 63, b + 63, "V")],
    6: lambda b: [(c, c, (0x100 + c % 64,)) for c in range(b, b + 64)], 7: lambda b: [(b, b, "V")], 8: lambda b: [(b + 63, b + 63, "V")]}


def distinct_blocks(n, bits=10):
    """n different blocks that are neither all valid nor all disallowed."""
    e = []
    for i in range(n):
        b = i * 64
        e.append((b, b, ()))
        e += [(b + 1 + j, b + 1 + j, "V") for j in range(bits) if i >> j & 1]
    return e


def bool_blocks(n):
    e = []
    for i in range(n):
        b = i * 64
        e += [(b + j, b + j, "V") for j in range(16) if (i + 1) >> j & 1]
    return e


def long_mappings(total):
    """Distinct mappings whose table needs exactly `total` bytes (1 for the empty string)."""
    e, used, c = [], 1, 0x1000
    while total - used >= 14:
        e.append((c, c, (0x10000 + c, 0x10001, 0x10002)))
        used += 13
        c += 1
    left = total - used
    if left >= 2:
        e.append((c, c, tuple(0x61 + (i % 7) for i in range(left - 1))))
    return e


def unicode17():
    m, s, k = [], [], []
    for line in open(REFDATA):
        if line[0] == "#":
            continue
        f = line.rstrip("\n").split(" ")
        lo, hi = int(f[1], 16), int(f[2], 16)
        if f[0] == "M":
            v = f[3][0]
            m.append((lo, hi, "V" if v == "V" else () if v == "I" else tuple(int(x, 16) for x in [f[3][1:]] + f[4:])))
        elif f[0] == "S":
            s.append((lo, hi))
        elif f[0] == "K":
            k.append((lo, hi))
    return m, s, k


def history_op(op):
    t = tree()
    fa = [(0x61, 0x7A, "V"), (0x41, 0x41, (0x61,))]
    fb = [(0x80, 0x80, (0x1F600,)), (0x3400, 0x3400, "V")]
    da, db = ([(0x41, 0x5A)], [(0x30, 0x39), (0x41, 0x5A)]), ([(0xAA, 0xAA), (0x1F600, 0x1F601)], [(0xAA, 0xB5), (0x10000, 0x10FFF)])
    M = {"map A": sorted(fa), "map B": fb}
    I = {"id A": da, "id B": db}
    return t, M, I


OPS = ["map A", "map B", "id A", "id B", "pack", "print map A", "print id B", "pack through the API"]


def run_history(ops):
    t, M, I = history_op(None)
    shutil.copytree(t, t + "h", dirs_exist_ok=True)
    t = t + "h"
    state_map, state_id = None, None
    base = read_blob(open(t + "/src/table_blob.inc").read())[0]
    cur = {n: base[n] for n in WIDTHS}
    k0 = open(t + "/src/mapping_tables.cpp").read()
    for op in ops:
        if op in M:
            ok, msg = script(t, "idna_table", ["-w"], {"IdnaMappingTable.txt": idna_file(M[op])})
            state_map = op
        elif op in I:
            ok, msg = script(t, "derived_table", ["-w"], {"DerivedCoreProperties.txt": derived_file(*I[op])})
            state_id = op
        elif op == "pack":
            ok, msg = script(t, "pack_tables")
        elif op == "print map A":
            ok, msg = script(t, "idna_table", [], {"IdnaMappingTable.txt": idna_file(M["map A"])}, cached=False)
        elif op == "print id B":
            ok, msg = script(t, "derived_table", [], {"DerivedCoreProperties.txt": derived_file(*I["id B"])}, cached=False)
        else:
            ok, msg = script(t, "pack_api", sections=read_blob(open(t + "/src/table_blob.inc").read())[0])
        if not ok:
            raise Wrong("%s failed: %s" % (op, msg))
        now = read_blob(open(t + "/src/table_blob.inc").read())[0]
        k = open(t + "/src/mapping_tables.cpp").read()
        if op in M:
            check_mapping(M[op], decode_mapping(read_constants(k), now["idna_stage1"], now["idna_stage2"], now["idna_bool_blocks"], now["idna_utf8_mappings"]))
            carried(cur, now, MAPSECS)
        elif op in I:
            check_ranges("ID_Start", I[op][0], now["id_start_flat"])
            check_ranges("ID_Continue", I[op][1], now["id_continue_flat"])
            carried(cur, now, IDSECS)
        else:
            carried(cur, now, set())
        if op not in M and k != k0:
            raise Wrong("%s changed the mapping constants" % op)
        cur, k0 = now, k
    return hashlib.md5(json.dumps([state_map, state_id]).encode() + open(t + "/src/table_blob.inc", "rb").read()).hexdigest(), len(ops)


CXX_MAIN = r'''
#include "ada/idna/mapping.h"
#include "ada/idna/identifier.h"
#include "ada/idna/normalization.h"
#include "ada/idna/validity.h"
#include <cstdio>
#include <string>
int main() {  // one line per run of equal behaviour
  std::string prev; unsigned start = 0;
  for (unsigned c = 0; c <= 0x110000; c++) {
    std::string s;
    if (c < 0x110000) {
      std::u32string in(1, char32_t(c)), out;
      char b[32];
      if (!ada::idna::map(in, out)) s = "D"; else if (out.empty()) s = "I"; else if (out == in) s = "V"; else { s = "M"; for (char32_t x : out) { snprintf(b, sizeof b, "%X,", unsigned(x)); s += b; } }
      s += ada::idna::valid_name_code_point(c, true) ? " S" : " -";
      s += ada::idna::valid_name_code_point(c, false) ? "K" : "-";
    }
    if (c && (s != prev || c == 0x110000)) { printf("%X %X %s\n", start, c - 1, prev.c_str()); start = c; }
    prev = s;
  }
}
'''


def run_built(entries, start, cont):
    """Regenerate everything, build the library, ask it about every code point."""
    t = make_tree("%s/full-%d" % (BUILD, os.getpid()), False)
    for name, f in (("idna_table", {"IdnaMappingTable.txt": idna_file(entries)}), ("derived_table", {"DerivedCoreProperties.txt": derived_file(start, cont, 1)}), ("pack_tables", {})):
        ok, msg = script(t, name, ["--write"] if f else [], f)
        if not ok:
            raise Wrong("%s refused: %s" % (name, msg))
    secs, _ = read_blob(open(t + "/src/table_blob.inc").read())
    k = read_constants(open(t + "/src/mapping_tables.cpp").read())
    check_mapping(entries, decode_mapping(k, secs["idna_stage1"], secs["idna_stage2"], secs["idna_bool_blocks"], secs["idna_utf8_mappings"]))
    carried(read_blob(open(REPO + "/src/table_blob.inc").read())[0], secs, MAPSECS | IDSECS)
    open(t + "/m.cpp", "w").write(CXX_MAIN)
    r = subprocess.run(["g++", "-std=c++20", "-O1", "-I" + t + "/include", "-I" + t + "/src", t + "/m.cpp", t + "/src/idna.cpp", "-o", t + "/m"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Wrong("the library does not build with the regenerated tables: " + r.stdout[-600:])
    out = subprocess.run([t + "/m"], stdout=subprocess.PIPE, text=True)
    if out.returncode:
        raise Wrong("the library with the regenerated tables crashes")
    want = ["D"] * MAX
    for lo, hi, v in entries:
        s = v if v in ("V", "D") else "I" if v == () else "M" + "".join("%X," % c for c in v)
        for c in range(lo, hi + 1):
            want[c] = "V" if v == (c,) else s
    st, ct = bytearray(MAX), bytearray(MAX)
    for arr, rs in ((st, start), (ct, cont)):
        for lo, hi in rs:
            arr[lo:hi + 1] = b"\1" * (hi + 1 - lo)
    for c in b"$_ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz":
        st[c] = 1
    for c in b"$0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz":
        ct[c] = 1
    for arr in (st, ct):
        arr[0xD800:0xE000] = bytes(0x800)
    n = 0
    for line in out.stdout.splitlines():
        lo, hi, m, i = line.split(" ")
        for c in range(int(lo, 16), int(hi, 16) + 1):
            n += 1
            if want[c] != m or (i[0] == "S") != bool(st[c]) or (i[1] == "K") != bool(ct[c]):
                raise Wrong("library built with the regenerated tables: U+%04X is %s %s, the data say %s %d%d" % (c, m, i, want[c], st[c], ct[c]))
    if n != MAX:
        raise Wrong("not every code point was reported")
    shutil.rmtree(t)
    return hashlib.md5(out.stdout.encode()).hexdigest(), 4


def built_cases():
    m, s, k = unicode17()
    ident = [(0x41, 0x5A), (0x61, 0x7A), (0xAA, 0xAA), (0x3400, 0x4DBF), (0x1F600, 0x1F64F), (0x10FFFF, 0x10FFFF)]
    cases = [(m, s, k), (distinct_blocks(512), ident[:1], ident), (long_mappings(65532), ident, ident[:1])]
    shifted = [(lo, hi, {"V": (), (): "V"}.get(v, v)) for lo, hi, v in m if lo < 0xE0000]
    cases.append((shifted + [(0xE0000, 0xE0FFF, ())], [(a, b) for a, b in k if a > 0x7F], [(0x30, 0x39)]))
    if TH:
        for h in HIGH:
            for kd in KINDS:
                e = [(a, b, kd) for a, b in SPOTS[3:7]] + ([h + ((),)] if h else [])
                cases.append((e, ident[1:3], ident[2:]))
    return cases


def spaces():
    f = []

    def single(i):
        kd, (sp, st) = KINDS[i % 8], divmod(i // 8, 4)
        return run_mapping([SPOTS[sp] + (kd,)], st, cached=bool(i & 1), must=True, prints=True), [rng(*SPOTS[sp]), show(kd), st]
    f.append(("mapping files with one entry: position x status x file style", len(SPOTS) * 8 * 4, single))
    ps = pair_spots()
    kk = [0, 2, 3, 5, 7] if not TH else range(8)
    kk = list(kk)

    def pairs(i):
        p = ps[i % len(ps)]
        j = i // len(ps)
        a, b = KINDS[kk[j % len(kk)]], KINDS[kk[j // len(kk)]]
        return run_mapping([p[0] + (a,), p[1] + (b,)], i % 4, must=True), [rng(*p[0]), show(a), rng(*p[1]), show(b)]
    f.append(("mapping files with two entries", len(ps) * len(kk) ** 2, pairs))
    nk = 4 if not TH else 6

    def window(i):
        e = []
        j = i
        for c in (0x3E, 0x3F, 0x40, 0x41, 0x42):
            kd = KINDS[[0, 1, 2, 5, 3, 6][j % nk]]
            j //= nk
            if kd != "D":
                e.append((c, c, kd))
        return run_mapping(e, i % 4, must=bool(e), prints=i % 7 == 0), ["%04X %s" % (x[0], show(x[2])) for x in e]
    f.append(("every assignment of %d statuses to 5 code points around a block boundary" % nk, nk ** 5, window))
    nb, depth = len(BLOCKKIND), 4 if TH else 3

    def blocks(i):
        e, j = [], i
        for b in range(depth):
            e += BLOCKKIND[j % nb](0x80 + 64 * b)
            j //= nb
        e.append((0x80 + 64 * depth, 0x80 + 64 * depth, (0xE9,)))
        return run_mapping(e, 0, must=True), ["block kinds %s" % [i // nb ** b % nb for b in range(depth)]]
    f.append(("every sequence of %d blocks of %d kinds (sharing of equal blocks)" % (depth, nb), nb ** depth, blocks))

    hi_parts = [(0xE0000, 0xE0000), (0xE0001, 0xE00FF), (0xE0100, 0xE01EF), (0xE0200, 0xE0FFF), (0x10FFFF, 0x10FFFF)]

    def high(i):
        low, j = ((0x61, 0x7A, "V"), (0xDFFFF, 0xDFFFF, (0x61,)), (0xDFFC0, 0xE0100 - 1, ()))[i % 3], i // 3
        e = [low]
        for p in hi_parts:
            kd = ["D", (), "V"][j % 3]
            j //= 3
            if kd != "D" and p[0] > e[-1][1]:
                e.append(p + (kd,))
        ign = [x for x in e if x[0] >= 0xE0000]
        one = all(x[2] == () for x in ign) and all(a[1] + 1 == b[0] for a, b in zip(ign, ign[1:]))
        return run_mapping(e, i % 2, must=one and low[1] < 0xE0000), ["%s %s" % (rng(*x[:2]), show(x[2])) for x in e]
    f.append(("code points from U+E0000: 3 statuses of 5 ranges (exact, or refused when not representable)", 3 * 3 ** 5, high))

    lim = [("%d different mixed blocks" % n, lambda n=n: distinct_blocks(n), n <= 512) for n in (511, 512, 513, 600, 1023)]
    lim += [("%d bytes of mappings" % n, lambda n=n: long_mappings(n), n <= 0xFFFC) for n in (65531, 65532, 65533, 65534, 65535, 65536, 65537, 70000)]
    lim += [("%d different valid/disallowed blocks" % n, lambda n=n: bool_blocks(n), True) for n in (1, 2, 64, 3000)]
    lim += [("Unicode 17", lambda: unicode17()[0], True)]

    def limits(i):
        return run_mapping(lim[i][1](), 0, must=lim[i][2], prints=True), [lim[i][0]]
    f.append(("files at the limits of the table format", len(lim), limits))

    R = [(0x41, 0x5A), (0x61, 0x7A), (0xAA, 0xAA), (0xAB, 0xAD), (0x3400, 0x4DBF), (0xFFFF, 0x10000), (0x10FFFF, 0x10FFFF)]

    def ids(i):
        s = [R[b] for b in range(7) if i >> b & 1]
        c = [R[b] for b in range(7) if i >> (7 + b) & 1]
        return run_derived(s, c, i % 2, cached=bool(i & 2), prints=i % 5 == 0), [rng(*x) for x in s] + ["/"] + [rng(*x) for x in c]
    if TH:
        f.append(("identifier files: every pair of subsets of 7 ranges", 1 << 14, ids))
    else:
        f.append(("identifier files: every pair of subsets of 5 ranges", 1 << 10, lambda i: ids((i & 31) << 1 | (i >> 5) << 9)))
    f.append(("identifier data of Unicode 17", 2, lambda i: (run_derived(unicode17()[1], unicode17()[2], i, prints=True), ["Unicode 17"])))
    d = 5 if TH else 4
    words = [w for n in range(1, d + 1) for w in itertools.product(range(len(OPS)), repeat=n)] if not TH else None
    total = sum(len(OPS) ** n for n in range(1, d + 1))

    def word(i):
        n = 1
        while i >= len(OPS) ** n:
            i -= len(OPS) ** n
            n += 1
        return [OPS[i // len(OPS) ** j % len(OPS)] for j in range(n)]
    if not TH:
        total = sum(len(OPS) ** n for n in range(1, 4))
    f.append(("every sequence of <= %d generator runs" % (d if TH else 3), total, lambda i: (run_history(word(i)), word(i))))
    bc = built_cases()
    f.append(("library rebuilt from regenerated tables, every code point asked", len(bc), lambda i: (run_built(*bc[i]), ["case %d: %d mapping entries" % (i, len(bc[i][0]))])))
    return f


SP = spaces()


def job(a):
    fi, lo, hi = a
    out, outcomes, calls, sample = [], set(), 0, []
    for i in range(lo, hi):
        try:
            (o, c), desc = SP[fi][2](i)
            outcomes.add(o)
            calls += c
            if i == lo:
                sample.append("%s: %s -> %s" % (SP[fi][0][:60], ", ".join(map(str, desc))[:100], o[:8]))
        except Wrong as e:
            out.append((i, str(e)))
            _tree.clear()
            if len(out) > 3:
                break
        except Exception as e:
            # decoding failed in a way a reader of the tables would also fail
            out.append((i, "the tables written cannot be decoded: %s: %s" % (type(e).__name__, e)))
            _tree.clear()
            if len(out) > 3:
                break
    return fi, hi - lo, out, outcomes, calls, sample


def main():
    if "--one" in sys.argv:
        j = sys.argv.index("--one")
        fi = next(k for k, s in enumerate(SP) if s[0] == sys.argv[j + 1])
        r = job((fi, int(sys.argv[j + 2]), int(sys.argv[j + 2]) + 1))
        for i, w in r[2]:
            print("VIOLATED: " + w)
        return 1 if r[2] else 0
    rep = sys.argv[sys.argv.index("--out") + 1]
    t0 = time.time()
    jobs = []
    for fi, (name, n, _) in enumerate(SP):
        step = 1 if n <= 64 else 16
        if "limits" in name or "rebuilt" in name:
            jobs = [(fi, i, i + 1) for i in range(n)] + jobs
        else:
            jobs += [(fi, i, min(n, i + step)) for i in range(0, n, step)]
    done = [0] * len(SP)
    vio, outcomes, calls, samples = [], set(), 0, {}
    with multiprocessing.Pool(8) as pool:
        for fi, n, out, oc, c, s in pool.imap_unordered(job, jobs):
            done[fi] += n
            outcomes |= oc
            calls += c
            if s and len(samples.setdefault(fi, [])) < 2:
                samples[fi] += s
            for i, w in out:
                vio.append((fi, i, w))
            if len(vio) >= 20:
                pool.terminate()
                break
    res = {"evals": sum(done), "calls": calls, "distinct_outcomes": len(outcomes), "wall": time.time() - t0, "complete": all(done[i] == SP[i][1] for i in range(len(SP))) and not vio,
           "families": [{"name": s[0], "size": s[1], "explored": d} for s, d in zip(SP, done)], "samples": [x for fi in sorted(samples) for x in samples[fi]][:12], "violations": []}
    for fi, i, w in sorted(vio)[:10]:
        again = job((fi, i, i + 1))[2]
        res["violations"].append({"family": SP[fi][0], "index": i, "hex": "", "input": "case %d" % i, "why": w, "replay": "confirmed" if again else "NOT reproduced"})
    for v in res["violations"]:
        v["hex"] = str(v["index"])
    json.dump(res, open(rep, "w"))
    return 1 if res["violations"] else 0


if __name__ == "__main__":
    sys.exit(main())
