#!/usr/bin/env python3
"""Turn unoptimised LLVM IR (text) into IR whose integer memory accesses are byte swapped:
the module then computes what it would compute on a host of the opposite byte order.

Every load/store of an integer of 16 bits or more goes through llvm.bswap, and integers in
the initialisers of globals are swapped. Registers, pointers and single bytes are unchanged.
Anything the translation does not understand is an error, never a guess.
"""
import re, sys

WIDE = {"i16": 2, "i32": 4, "i64": 8, "i128": 16}


class Unsupported(Exception):
    pass


def cswap(ty, v):
    n = WIDE[ty]
    v = int(v) & ((1 << (8 * n)) - 1)
    return str(int.from_bytes(v.to_bytes(n, "little"), "big"))


# functions outside the module that the translation knows to exchange only bytes and register values
EXTERN = re.compile(r"llvm\.|__cxa_|__gxx_personality|_ZSt9terminatev|_Zn[wa]|_Zd[la]|_ZSt\d+__throw_|mem(cpy|move|set|cmp|chr)$|strlen$|abort$|malloc$|calloc$|realloc$|free$|qsort$|bsearch$|pthread_(once|mutex_\w+|cond_(wait|signal|broadcast))$|sched_yield$|syscall$|__errno_location$|nanosleep$|_ZNSt6chrono3_V2\w*nowEv$|__once_proxy$|_ZT[WH]|__assert_fail$|__stack_chk_fail$|_Unwind_Resume$"
                    r"|_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE15_M_replace_coldEPcmPKcmm$|_ZNSt\w*(exception|error|alloc|length)\w*D[012]Ev$")
FLOAT = {"float": "i32", "double": "i64"}
SCALAR_OK = {"i1", "i8", "ptr"}


def fields(agg):
    inner = agg.strip()[1:-1]
    parts = [p.strip() for p in inner.split(",")]
    for p in parts:
        if p not in WIDE and p not in SCALAR_OK:
            raise Unsupported("aggregate " + agg)
    return parts


def init(text):
    """Swap the integers of a global initialiser; leave constant expressions alone."""
    out, i = [], 0
    if re.search(r"\b(double|float|half|x86_fp80|fp128) [-0-9]", text):
        raise Unsupported("floating-point constant " + text[:80])
    for m in re.finditer(r'c"[^"]*"|(getelementptr[^(]*\()|(ptrtoint|inttoptr|bitcast|\bsub\b|\badd\b)\s*\(|\bi(16|32|64|128) (-?\d+)\b', text):
        if m.start() < i:
            continue
        out.append(text[i:m.start()])
        i = m.end()
        if m.group(1):
            depth = 1
            while depth:
                depth += {"(": 1, ")": -1}.get(text[i], 0)
                i += 1
            out.append(text[m.start():i])
        elif m.group(2):
            raise Unsupported("constant expression " + text[m.start():m.start() + 80])
        elif m.group(3):
            out.append("i%s %s" % (m.group(3), cswap("i" + m.group(3), m.group(4))))
        else:
            out.append(m.group(0))
    out.append(text[i:])
    return "".join(out)


def translate(src):
    out, k = [], 0
    need = set()

    def bswap(dst, ty, v):
        need.add(ty)
        return "  %s = call %s @llvm.bswap.%s(%s %s)" % (dst, ty, ty, ty, v)

    for line in src.split("\n"):
        if line.startswith("@"):
            if re.search(r" external .*\b(global|constant) (i(16|32|64|128)|double|float|\[)", line) and not re.match(r"@_ZT[IVSN]", line):
                raise Unsupported(line[:200])
            if not line.startswith("@llvm."):
                m = re.match(r"(@\S+|@\"[^\"]*\")( = .*?\b(?:global|constant) )(.*)$", line)
                if m:
                    line = m.group(1) + m.group(2) + init(m.group(3))
                elif " alias " not in line:
                    raise Unsupported(line[:200])
            out.append(line)
            continue
        if line.startswith("declare"):
            name = re.search(r"@\"?([^\"(\s]+)", line).group(1)
            if not EXTERN.match(name):
                raise Unsupported("external function " + name)
            if re.match(r"llvm\.(masked|vector|x86\.(?!sse2\.(pause|[lm]fence)))", name):
                raise Unsupported("intrinsic " + name)
            if name.startswith("llvm.bswap."):
                continue
            out.append(line)
            continue
        m = re.match(r"(\s+)(%\S+) = load (atomic )?(volatile )?(\{[^{}]*\}|[^,]+), (.*)$", line)
        if m:
            ty, dst = m.group(5), m.group(2)
            if ty in SCALAR_OK:
                out.append(line)
            elif ty in WIDE:
                k += 1
                rest = re.sub(r", !range ![0-9]+", "", m.group(6))
                out.append("  %%be.%d = load %s%s%s, %s" % (k, m.group(3) or "", m.group(4) or "", ty, rest))
                out.append(bswap(dst, ty, "%%be.%d" % k))
            elif ty in FLOAT:
                k += 1
                out.append("  %%be.%d = load %s%s%s, %s" % (k, m.group(3) or "", m.group(4) or "", FLOAT[ty], m.group(6)))
                out.append(bswap("%%be.f%d" % k, FLOAT[ty], "%%be.%d" % k))
                out.append("  %s = bitcast %s %%be.f%d to %s" % (dst, FLOAT[ty], k, ty))
            elif ty.startswith("{"):
                parts = fields(ty)
                k += 1
                cur = "%%be.%d" % k
                out.append("  %s = load %s, %s" % (cur, ty, m.group(6)))
                last = [j for j, p in enumerate(parts) if p in WIDE]
                if not last:
                    out[-1] = line
                for j in last:
                    k += 1
                    out.append("  %%be.e%d = extractvalue %s %s, %d" % (k, ty, cur, j))
                    out.append(bswap("%%be.s%d" % k, parts[j], "%%be.e%d" % k))
                    nxt = dst if j == last[-1] else "%%be.i%d" % k
                    out.append("  %s = insertvalue %s %s, %s %%be.s%d, %d" % (nxt, ty, cur, parts[j], k, j))
                    cur = nxt
            else:
                raise Unsupported(line.strip())
            continue
        m = re.match(r"(\s+)store (atomic )?(volatile )?(\{[^{}]*\}|\S+) (.*)$", line)
        if m:
            ty = m.group(4)
            if ty in SCALAR_OK:
                out.append(line)
            elif ty in WIDE:
                r = re.match(r"(.+?), (ptr .*)$", m.group(5))
                v, rest = r.group(1), r.group(2)
                if re.fullmatch(r"-?\d+", v):
                    v = cswap(ty, v)
                elif v in ("undef", "poison"):
                    pass
                elif v.startswith("%"):
                    k += 1
                    out.append(bswap("%%be.%d" % k, ty, v))
                    v = "%%be.%d" % k
                else:
                    raise Unsupported(line.strip())
                out.append("  store %s%s%s %s, %s" % (m.group(2) or "", m.group(3) or "", ty, v, rest))
            elif ty in FLOAT:
                r = re.match(r"(.+?), (ptr .*)$", m.group(5))
                k += 1
                out.append("  %%be.f%d = bitcast %s %s to %s" % (k, ty, r.group(1), FLOAT[ty]))
                out.append(bswap("%%be.%d" % k, FLOAT[ty], "%%be.f%d" % k))
                out.append("  store %s%s%s %%be.%d, %s" % (m.group(2) or "", m.group(3) or "", FLOAT[ty], k, r.group(2)))
            elif ty.startswith("{"):
                parts = fields(ty)
                r = re.match(r"(%\S+), (ptr .*)$", m.group(5))
                if not r:
                    raise Unsupported(line.strip())
                cur = r.group(1)
                for j, p in enumerate(parts):
                    if p in WIDE:
                        k += 1
                        out.append("  %%be.e%d = extractvalue %s %s, %d" % (k, ty, cur, j))
                        out.append(bswap("%%be.s%d" % k, p, "%%be.e%d" % k))
                        out.append("  %%be.i%d = insertvalue %s %s, %s %%be.s%d, %d" % (k, ty, cur, p, k, j))
                        cur = "%%be.i%d" % k
                out.append("  store %s %s, %s" % (ty, cur, r.group(2)))
            else:
                raise Unsupported(line.strip())
            continue
        m = re.match(r"\s+(%\S+) = cmpxchg (weak )?(volatile )?ptr ([^,]+), (\S+) ([^,]+), (\S+) (\S+) (.*)$", line)
        if m and m.group(5) != "i8":
            ty, dst = m.group(5), m.group(1)
            if ty not in WIDE:
                raise Unsupported(line.strip())
            k += 1
            ops = []
            for t, v in (("a", m.group(6)), ("b", m.group(8))):
                out.append(bswap("%%be.%s%d" % (t, k), ty, v))
                ops.append("%%be.%s%d" % (t, k))
            out.append("  %%be.x%d = cmpxchg %s%sptr %s, %s %s, %s %s %s" % (k, m.group(2) or "", m.group(3) or "", m.group(4), ty, ops[0], ty, ops[1], m.group(9)))
            out.append("  %%be.e%d = extractvalue { %s, i1 } %%be.x%d, 0" % (k, ty, k))
            out.append(bswap("%%be.s%d" % k, ty, "%%be.e%d" % k))
            out.append("  %s = insertvalue { %s, i1 } %%be.x%d, %s %%be.s%d, 0" % (dst, ty, k, ty, k))
            continue
        # The translated module is only ever run by one thread at a time.
        m = re.match(r"\s+(%\S+) = atomicrmw (volatile )?(xchg|add|sub|and|or|xor|nand) (ptr [^,]+), (i16|i32|i64) (\S+) .*$", line)
        if m:
            dst, op, ptr, ty, v = m.group(1), m.group(3), m.group(4), m.group(5), m.group(6)
            k += 1
            out.append("  %%be.%d = load %s, %s" % (k, ty, ptr))
            out.append(bswap(dst, ty, "%%be.%d" % k))
            new = v
            if op != "xchg":
                new = "%%be.n%d" % k
                out.append("  %s = %s %s %s, %s" % (new, "and" if op == "nand" else op, ty, dst, v))
                if op == "nand":
                    out.append("  %%be.m%d = xor %s %s, -1" % (k, ty, new))
                    new = "%%be.m%d" % k
            out.append(bswap("%%be.w%d" % k, ty, new))
            out.append("  store %s %%be.w%d, %s" % (ty, k, ptr))
            continue
        if re.search(r"= atomicrmw ", line) and not re.search(r", i8 ", line):
            raise Unsupported(line.strip())
        if re.search(r"= va_arg |<\d+ x ", line):
            raise Unsupported(line.strip())
        out.append(line)
    for t in sorted(need | {"i16", "i32", "i64"}):
        out.append("declare %s @llvm.bswap.%s(%s)" % (t, t, t))
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    open(sys.argv[2], "w").write(translate(open(sys.argv[1], errors="surrogateescape").read()))
