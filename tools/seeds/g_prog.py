T = "iec61131-st/"
HELP = '''
def declaration(name, kind="FUNCTION"):
    """Parameters of a declaration, in its order: (name, type as written, section)."""
    for f in glob.glob("iec61131-st/*.st"):
        t = re.sub(r"//[^\\n]*", "", re.sub(r"(?s)\\(\\*.*?\\*\\)", "", open(f).read()))
        m = re.search(r"(?is)\\bFUNCTION\\s+" + name + r"\\s*(?:<[^>]*>)?\\s*:\\s*(\\w+)(.*?)END_FUNCTION\\b", t)
        if m:
            out = []
            for s in re.finditer(r"(?is)\\b(VAR_\\w+)\\b\\s*(\\{ref\\})?(.*?)END_VAR", m[2]):
                for d in s[3].split(";"):
                    if ":" in d:
                        n, ty = d.split(":", 1)
                        out += [(x.strip().lower(), ty.strip(), s[1]) for x in n.split(",")]
            return out
    raise SystemExit("no declaration of " + name)
def program(name, types, named, symbol, ret):
    """A call with named parameters, as compiled by the declaration."""
    args, outs = [], {}
    for n, t, s in declaration(name):
        t = TYPES[types.get(t, t).upper()]
        if s.upper() == "VAR_OUTPUT":
            outs[n] = t(0)
            args.append(C.byref(outs[n]))
        else:
            args.append(t(named[n]))
    f = getattr(LIB, symbol)
    f.restype = TYPES[ret]
    r = f(*args)
    return {n: v.value for n, v in outs.items()} if outs else r
'''
SEEDS = [
dict(id="c37-atan2-names", property="C37", st=True,
  edits=[(T + "arithmetic_functions.st", "FUNCTION ATAN2<T : ANY_REAL> : T\nVAR_INPUT\n\ty : T;\n\tx : T;\n", "FUNCTION ATAN2<T : ANY_REAL> : T\nVAR_INPUT\n\tx : T;\n\ty : T;\n")],
  needs="a program which calls ATAN2 with named parameters",
  breaks="x and y are exchanged in the declaration, the library still takes y first",
  demo=HELP + '''
import math
for y, x in ((1.0, 2.0), (-3.0, 0.5), (1.0, 1.0)):
    got = program("ATAN2", {"T": "LREAL"}, {"y": y, "x": x}, "ATAN2__LREAL", "LREAL")
    check(abs(got - math.atan2(y, x)) < 1e-9, True, f"ATAN2(y := {y}, x := {x}) = {got}")
'''),
dict(id="c37-shift-count-type", property="C37", st=True,
  edits=[(T + "bit_shift_functions.st", "FUNCTION SHR<T: ANY_BIT> : T\nVAR_INPUT\n	IN : T;\n	n : UDINT;", "FUNCTION SHR<T: ANY_BIT> : T\nVAR_INPUT\n	IN : T;\n	n : USINT;")],
  needs="a number of bits of 256 or more, with a small remainder",
  breaks="the number of bits is cut to 8 bits before the call: SHR by 256 keeps the value",
  demo=HELP + '''
for n in (0, 1, 31, 32, 255, 256, 257, 65536):
    got = program("SHR", {"T": "DWORD"}, {"in": 0x80000001, "n": n}, "SHR__DWORD", "DWORD")
    check(got, 0x80000001 >> n, f"SHR({n})")
'''),
dict(id="c37-split-tod-names", property="C37", st=True,
  edits=[(T + "date_time_extra_functions.st", "FUNCTION SPLIT_TOD__UDINT : INT\nVAR_INPUT\n	in : TOD;\nEND_VAR\nVAR_OUTPUT\n	hour : UDINT;\n	minute : UDINT;\n	second : UDINT;", "FUNCTION SPLIT_TOD__UDINT : INT\nVAR_INPUT\n	in : TOD;\nEND_VAR\nVAR_OUTPUT\n	hour : UDINT;\n	second : UDINT;\n	minute : UDINT;")],
  needs="SPLIT_TOD with UDINT variables by name",
  breaks="the outputs minute and second are exchanged for one of the types",
  demo=HELP + '''
t = ((13 * 60 + 37) * 60 + 42) * 10**9 + 123 * 10**6
for ty in ("INT", "UINT", "DINT", "UDINT", "LINT", "ULINT"):
    got = program("SPLIT_TOD__" + ty, {}, {"in": t}, "SPLIT_TOD__" + ty, "INT")
    check(got, dict(hour=13, minute=37, second=42, millisecond=123), "SPLIT_TOD " + ty)
'''),
dict(id="c37-mul-time-unsigned", property="C37", st=True,
  edits=[(T + "date_time_extra_functions.st", "FUNCTION CONCAT_DATE <T: ANY_INT> : DATE\nVAR_INPUT\n	year : T;\n	month : T;\n	day : T;", "FUNCTION CONCAT_DATE <T: ANY_INT> : DATE\nVAR_INPUT\n	year : T;\n	day : T;\n	month : T;")],
  needs="CONCAT_DATE with named parameters",
  breaks="month and day are exchanged in the declaration",
  demo=HELP + '''
for y, m, d, days in ((2000, 3, 1, 11017), (1970, 1, 2, 1), (1970, 2, 1, 31)):
    got = program("CONCAT_DATE", {"T": "INT"}, {"year": y, "month": m, "day": d}, "CONCAT_DATE__INT", "LINT")
    check(got, days * 86400 * 10**9, f"CONCAT_DATE(year := {y}, month := {m}, day := {d})")
'''),
]
SEEDS[-1]["id"] = "c37-concat-date-names"
