#!/usr/bin/env python3
"""LLVM-IR rewriter: turns every floating-point operation of a .ll file into a call of the
symbolic runtime (engine/runtime.cpp).  A symbolic double travels through the unmodified
program as a NaN-boxed 64-bit pattern; loads, stores, phis, selects and memcpy move it
untouched, so only the operations that look at the *value* have to be intercepted.

usage: rewrite.py in.ll out.ll
Exit code 3: the file contains a floating-point construct the engine does not model.
"""
import re
import sys

PRED = {p: i for i, p in enumerate(
    ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord",
     "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"])}

FLAGS = r"(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*"
V = r"([^,\s]+)"

RX_BIN = re.compile(r"^(\s*)(%\S+) = (fadd|fsub|fmul|fdiv|frem) " + FLAGS + r"(double|float) (.+?), (.+?)((?:, ![^,]*)*)$")
RX_NEG = re.compile(r"^(\s*)(%\S+) = fneg " + FLAGS + r"(double|float) (.+?)((?:, ![^,]*)*)$")
RX_CMP = re.compile(r"^(\s*)(%\S+) = fcmp " + FLAGS + r"(\w+) (double|float) (.+?), (.+?)((?:, ![^,]*)*)$")
RX_TOI = re.compile(r"^(\s*)(%\S+) = (fptosi|fptoui) (double|float) (.+?) to (i\d+)((?:, ![^,]*)*)$")
RX_TRUNC = re.compile(r"^(\s*)(%\S+) = fptrunc " + FLAGS + r"double (.+?) to float((?:, ![^,]*)*)$")
RX_EXT = re.compile(r"^(\s*)(%\S+) = fpext " + FLAGS + r"float (.+?) to double((?:, ![^,]*)*)$")
RX_BITC = re.compile(r"= bitcast (?:double|float) \S+ to i(?:64|32)|= bitcast i(?:64|32) \S+ to (?:double|float)")
RX_VEC = re.compile(r"= (?:fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fptosi|fptoui|fptrunc|fpext)\b[^=]*<\d+ x ")
RX_LONGD = re.compile(r"= (?:fadd|fsub|fmul|fdiv|fcmp|fptosi|fptrunc|fpext)\b.*\b(?:x86_fp80|fp128)\b")

# library functions with a model in the runtime: name in IR -> runtime symbol
RENAME = {}
for f in ("sqrt sin cos tan exp log log10 log2 pow fabs floor ceil round trunc rint nearbyint hypot fmin fmax "
          "fmod remainder copysign fma cbrt atan atan2 asin acos lround llround lrint fdim exp2 expm1 log1p "
          "sinh cosh tanh").split():
    RENAME[f] = "__sym_" + f
for f in "sqrtf fabsf floorf ceilf".split():
    RENAME[f] = "__sym_" + f
for f in "sqrt sin cos exp log pow fabs floor ceil round trunc rint nearbyint copysign fma".split():
    RENAME["llvm.%s.f64" % f] = "__sym_" + f
RENAME.update({
    "llvm.fmuladd.f64": "__sym_fma", "llvm.minnum.f64": "__sym_fmin", "llvm.maxnum.f64": "__sym_fmax",
    "llvm.minimum.f64": "__sym_fmin", "llvm.maximum.f64": "__sym_fmax", "llvm.roundeven.f64": "__sym_rint",
    "llvm.is.fpclass.f64": "__sym_fpclass",
    "llvm.lround.i64.f64": "__sym_lround", "llvm.lrint.i64.f64": "__sym_lrint",
    "llvm.llround.i64.f64": "__sym_llround",
    "llvm.fabs.f32": "__sym_fabsf", "llvm.sqrt.f32": "__sym_sqrtf", "llvm.floor.f32": "__sym_floorf",
    "llvm.ceil.f32": "__sym_ceilf",
    # C++ stream insertion / extraction of floating-point numbers
    "_ZNSo9_M_insertIdEERSoT_": "__sym_os_insert_d",
    "_ZNSolsEd": "__sym_os_insert_d",
    "_ZNSolsEf": "__sym_os_insert_f",
    "_ZNSi10_M_extractIdEERSiRT_": "__sym_is_extract_d",
    "_ZNSirsERd": "__sym_is_extract_d",
    "_ZNSi10_M_extractIfEERSiRT_": "__sym_is_extract_f",
    "_ZNSirsERf": "__sym_is_extract_f",
    "strtod": "__sym_strtod", "atof": "__sym_atof", "strtof": "__sym_strtof",
    "printf": "__sym_printf", "fprintf": "__sym_fprintf", "snprintf": "__sym_snprintf",
    "puts": "__sym_puts", "putchar": "__sym_putchar", "fputs": "__sym_fputs", "fputc": "__sym_fputc", "putc": "__sym_fputc",
    "fwrite": "__sym_fwrite", "sprintf": "__sym_sprintf", "vsnprintf": "__sym_vsnprintf",
    # environment
    "exit": "__sym_exit", "_exit": "__sym_exit", "_Exit": "__sym_exit", "quick_exit": "__sym_exit",
    "_ZNSt6chrono3_V212system_clock3nowEv": "__sym_clock_now",
    "_ZNSt6chrono3_V212steady_clock3nowEv": "__sym_clock_now",
    "time": "__sym_time",
})
RX_SYM = re.compile(r"@(\"?)([A-Za-z_.][\w.]*)\1\(")

DECL = """
declare double @__sym_fadd(double, double)
declare double @__sym_fsub(double, double)
declare double @__sym_fmul(double, double)
declare double @__sym_fdiv(double, double)
declare double @__sym_frem(double, double)
declare double @__sym_fneg(double)
declare i32 @__sym_fcmp(i32, double, double)
declare i64 @__sym_fptosi(double, i32)
declare i64 @__sym_fptoui(double, i32)
declare float @__sym_fptrunc(double)
declare double @__sym_fpext(float)
declare float @__sym_faddf(float, float)
declare float @__sym_fsubf(float, float)
declare float @__sym_fmulf(float, float)
declare float @__sym_fdivf(float, float)
declare float @__sym_frem_f(float, float)
declare float @__sym_fnegf(float)
declare i32 @__sym_fcmpf(i32, float, float)
declare i64 @__sym_fptosif(float, i32)
declare i64 @__sym_fptouif(float, i32)
"""


def main(src, dst):
    text = open(src).read().split("\n")
    out = []
    tmp = 0
    bad = []
    counts = {}

    def cnt(k):
        counts[k] = counts.get(k, 0) + 1

    for ln in text:
        if not ln or ln[0] in ";!%@" or ln.startswith(("source_filename", "target", "attributes", "$", "}")):
            out.append(ln)
            continue
        if "= f" in ln:
            if RX_VEC.search(ln) or RX_LONGD.search(ln):
                bad.append(ln.strip())
            m = RX_BIN.match(ln)
            if m:
                ind, r, op, ty, a, b, md = m.groups()
                sfx = "" if ty == "double" else "f"
                if op == "frem" and ty == "float":
                    bad.append(ln.strip())
                cnt(op)
                out.append(f"{ind}{r} = call {ty} @__sym_{op}{sfx}({ty} {a}, {ty} {b})")
                continue
            m = RX_NEG.match(ln)
            if m:
                ind, r, ty, a, md = m.groups()
                sfx = "" if ty == "double" else "f"
                cnt("fneg")
                out.append(f"{ind}{r} = call {ty} @__sym_fneg{sfx}({ty} {a})")
                continue
            m = RX_CMP.match(ln)
            if m:
                ind, r, pred, ty, a, b, md = m.groups()
                sfx = "" if ty == "double" else "f"
                tmp += 1
                cnt("fcmp")
                out.append(f"{ind}%symt.{tmp} = call i32 @__sym_fcmp{sfx}(i32 {PRED[pred]}, {ty} {a}, {ty} {b})")
                out.append(f"{ind}{r} = icmp ne i32 %symt.{tmp}, 0")
                continue
            m = RX_TOI.match(ln)
            if m:
                ind, r, op, ty, a, it, md = m.groups()
                sfx = "" if ty == "double" else "f"
                w = int(it[1:])
                cnt(op)
                if w == 64:
                    out.append(f"{ind}{r} = call i64 @__sym_{op}{sfx}({ty} {a}, i32 64)")
                else:
                    tmp += 1
                    out.append(f"{ind}%symt.{tmp} = call i64 @__sym_{op}{sfx}({ty} {a}, i32 {w})")
                    out.append(f"{ind}{r} = trunc i64 %symt.{tmp} to {it}")
                continue
            m = RX_TRUNC.match(ln)
            if m:
                ind, r, a, md = m.groups()
                cnt("fptrunc")
                out.append(f"{ind}{r} = call float @__sym_fptrunc(double {a})")
                continue
            m = RX_EXT.match(ln)
            if m:
                ind, r, a, md = m.groups()
                cnt("fpext")
                out.append(f"{ind}{r} = call double @__sym_fpext(float {a})")
                continue
        if RX_BITC.search(ln):
            bad.append(ln.strip())

        def ren(m):
            n = m.group(2)
            if n in RENAME:
                cnt("call " + n)
                return "@" + RENAME[n] + "("
            return m.group(0)
        if "@" in ln:
            # a second declaration of the same runtime symbol must not appear twice
            new = RX_SYM.sub(ren, ln)
            if new.startswith("declare") and new != ln:
                new = re.sub(r" #\d+$", "", new)   # drop readnone/willreturn/nounwind: the model forks and records
                sym = re.search(r"@(__sym_\w+)\(", new).group(1)
                if any(l.startswith("declare") and ("@" + sym + "(") in l for l in out):
                    continue
            if new.startswith("define") and new != ln:
                bad.append("definition of modelled function: " + ln[:120])
            out.append(new)
        else:
            out.append(ln)
    body = "\n".join(out)
    for d in DECL.strip().split("\n"):
        sym = re.search(r"@(__sym_\w+)\(", d).group(1)
        if "@" + sym + "(" in body and not re.search(r"^declare[^\n]*@" + sym + r"\(", body, re.M):
            body += "\n" + d
    open(dst, "w").write(body + "\n")
    if bad:
        sys.stderr.write("unmodelled floating-point constructs in %s:\n" % src)
        for b in bad[:10]:
            sys.stderr.write("  " + b + "\n")
        # bit casts are reported but not fatal: the runtime flags any boxed value that reaches native arithmetic
        if any("bitcast" not in b for b in bad):
            return 3
    print(sum(counts.values()))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2]))
