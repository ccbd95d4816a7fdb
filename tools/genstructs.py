#!/usr/bin/env python3
"""Writes harness/gen_structs.go: struct types with embedding, unexported
fields and name conflicts, which reflect.StructOf cannot build.
Usage: genstructs.py [seed [count [out]]]"""
import random, sys, os
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
count = int(sys.argv[2]) if len(sys.argv) > 2 else 420
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[3] if len(sys.argv) > 3 else os.path.join(here, "harness", "gen_structs.go")
R = random.Random(seed)

SCALARS = ["int", "int", "string", "string", "bool", "float64", "uint8", "int8", "NInt", "NStr", "float32", "int64", "uint64"]
OTHER = ["*int", "*string", "[]int", "[]string", "map[string]int", "interface{}", "[2]int", "struct{}", "**int", "[]byte", "json.Number", "TStr", "JInt", "*TStruct", "*bool", "map[string]*NInt", "[0]int", "*float64"]
NAMES = ["A", "B", "C", "D", "Aa", "AA", "AB", "K", "S", "X", "Y", "Id", "ID", "É", "Name", "Ks"]
LOW = ["a", "b", "c", "aa", "x", "id", "k"]
TAGS = ["a", "b", "c", "A", "B", "aA", "id", "k", "ß", "é", "x y", "<t>", "0", "D", "ks", "name", "a.b", "a-b", "ſ", "K"]

def tag(kind, embedded):
    r = R.random()
    if embedded:
        if r < .78: return ""
        if r < .88: return '`json:"%s"`' % R.choice(TAGS)
        if r < .91: return '`json:"-"`'
        if r < .94: return '`json:",omitempty"`'
        if r < .97: return '`json:"%s,omitempty"`' % R.choice(TAGS)
        return '`json:"a\\\\b"`'
    if r < .42: return ""
    name = R.choice(TAGS) if R.random() < .7 else ""
    if r < .46: return '`json:"-"`'
    if r < .49: return '`json:"-,"`'
    if r < .52: return R.choice(['`json:"a\\\\b"`', '`json:"\\"q\\""`', '`json:a`', '`json: "a"`', '`xml:"a"`', '`json:""`', '`json:"\\x01"`', '`json:",,omitempty"`', '`json:"a,omitempty,string"`' if kind == "s" else '`json:"b,,omitempty"`', '`xml:"x" json:"b"`', '`json:"a" json:"b"`'])
    opts = ""
    if R.random() < .45: opts += ",omitempty"
    if kind == "s" and R.random() < .25: opts += ",string"
    if R.random() < .05: opts = ",string" + opts if kind == "s" else opts
    if not name and not opts: return ""
    return '`json:"%s%s"`' % (name, opts)

def ptag(name):
    """tag of an embedded pointer: encoding/json cannot set a named field which
    is an embedded pointer to an unexported type (it panics or leaves it), so
    these stay without a name"""
    t = tag("o", True)
    if name[0].islower() and t not in ("", '`json:"-"`', '`json:",omitempty"`'): return ""
    return t

types = []  # (name, kind, depth)
src = []
# embedded non struct types
src.append('''type GNum int
type gnum int
type GStrs []string
type gmap map[string]int
type GIface interface{}
type GFace interface{ GNever() }
type gface interface{ gnever() }
type GHook struct{ H int }

func (h GHook) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"hook":%d}`, h.H)), nil }
func (h *GHook) UnmarshalJSON(b []byte) error { h.H = len(b); return nil }
''')
roots = []
for i in range(count):
    depth = 0 if i < count // 6 else R.choice([1, 1, 2, 2, 3, 4])
    exported = R.random() < .6
    name = ("G%d" if exported else "g%d") % i
    fields, used = [], set()
    def add(fname, line):
        if fname in used: return
        used.add(fname)
        fields.append(line)
    nf = R.choice([0, 1, 1, 2, 2, 3, 4, 6]) if depth else R.choice([1, 2, 2, 3, 4, 7])
    if R.random() < .06: nf = R.choice([11, 12, 14])
    parts = ["f"] * nf
    if depth:
        parts += ["e"] * R.choice([1, 1, 2, 2, 3, 4])
        R.shuffle(parts)
    for p in parts:
        if p == "f":
            if R.random() < .12:
                n = R.choice(LOW)
                add(n, "\t%s %s %s" % (n, R.choice(SCALARS), tag("s", False)))
            elif R.random() < .7:
                n = R.choice(NAMES)
                add(n, "\t%s %s %s" % (n, R.choice(SCALARS), tag("s", False)))
            else:
                n = R.choice(NAMES)
                add(n, "\t%s %s %s" % (n, R.choice(OTHER), tag("o", False)))
        else:
            r = R.random()
            if r < .07:
                t = R.choice(["GNum", "gnum", "*GNum", "*gnum", "GStrs", "gmap", "GIface", "GFace", "gface"])
                add(t.lstrip("*"), "\t%s %s" % (t, tag("o", True)))
            elif r < .085:
                # promoted hooks make the struct a marshaler unless they clash
                add("GHook", "\tGHook %s" % tag("o", True))
            elif r < .14:
                add(name, "\t*%s %s" % (name, ptag(name)))
            elif r < .19 and i + 1 < count:
                # a later type: mutual recursion through pointers
                j = R.randrange(i + 1, min(count, i + 6))
                fields.append(("late", j, ptag("g") if R.random() < .5 else ""))
            else:
                c = [t for t in types if t[1] < depth] or types
                if R.random() < .6: c = c[-40:]
                t = R.choice(c)
                star = "*" if R.random() < .4 else ""
                add(t[0], "\t%s%s %s" % (star, t[0], ptag(t[0]) if star else tag("o", True)))
    types.append((name, depth))
    roots.append((name, fields, used))
# small structs whose few members are reached through embedded pointers and
# structs: 1, 2, 3 members use other decoders than many
main = R
R = random.Random(seed + 2000)
for i in range(count, count + count // 5):
    name = ("G%d" if R.random() < .7 else "g%d") % i
    fields, used = [], set()
    small = [t for t in types[-60:] if t[1] >= 100]
    def add(fname, line):
        if fname not in used:
            used.add(fname)
            fields.append(line)
    if small and R.random() < .6:
        for k in range(R.choice([1, 1, 1, 2])):
            t = R.choice(small)
            star = "*" if R.random() < .6 else ""
            add(t[0], "\t%s%s %s" % (star, t[0], "" if R.random() < .85 else ptag(t[0]) if star else tag("o", True)))
        if R.random() < .3:
            n = R.choice(NAMES)
            add(n, "\t%s %s %s" % (n, R.choice(SCALARS), tag("s", False)))
    else:
        for k in range(R.choice([1, 1, 1, 2, 2, 3])):
            n = R.choice(NAMES)
            add(n, "\t%s %s %s" % (n, R.choice(SCALARS + ["*int", "*string", "[]int", "interface{}", "map[string]int"]), tag("o", False)))
    types.append((name, 100))
    roots.append((name, fields, used))
# one struct type embedded several times at the same depth through others
for i in range(count + count // 5, count + count // 5 + 40):
    name = ("G%d" if R.random() < .6 else "g%d") % i
    fields, used = [], set()
    def add(fname, line):
        if fname not in used:
            used.add(fname)
            fields.append(line)
    k = (i - count - count // 5) % 8
    last = [t[0] for t in types]
    if k == 0:
        for n in R.sample(NAMES[:10], R.choice([1, 2, 3])):
            add(n, "\t%s %s %s" % (n, R.choice(SCALARS), tag("s", False)))
        leaf = name
    elif k < 6: # wrappers of the leaf, some of them with members of their own
        star = "*" if R.random() < .3 else ""
        add(leaf, "\t%s%s" % (star, leaf))
        if R.random() < .3:
            n = R.choice(NAMES)
            add(n, "\t%s %s %s" % (n, R.choice(SCALARS), tag("s", False)))
    else:
        for n in R.sample(last[-k + 1:], R.choice([2, 3, 3, 4, 5])):
            star = "*" if R.random() < .3 else ""
            add(n, "\t%s%s" % (star, n))
        if R.random() < .3:
            n = R.choice(NAMES)
            add(n, "\t%s %s %s" % (n, R.choice(SCALARS), tag("s", False)))
    types.append((name, 101))
    roots.append((name, fields, used))
R = main

def alt_name(prefix, n):
    """name of the twin type, with the same case of the first letter"""
    return (prefix.upper() if n[0] == "G" else prefix) + n[1:]

UNTAGGED = ["", '`json:a`', '`json: "a"`', '`xml:"a"`']
D = random.Random(seed + 1000)

def alt_tag(t, plain=False, typ=""):
    """the json tag as alt tag, and a json tag which must not matter"""
    decoy = D.choice(['json:"-"', 'json:"decoy"', 'json:"a"', 'json:",string"', 'json:"A,omitempty"', ""])
    if "string" in decoy and typ not in SCALARS: decoy = ""
    if plain: decoy = D.choice(['json:"-"', ""])
    body = t.strip("`").replace("json:", "jsom:")
    if decoy and body: body += " " + decoy
    elif decoy: body = decoy
    return "`%s`" % body if body else ""

def only_tag(t, embedded):
    if not embedded and t in UNTAGGED: return '`json:"-"`'
    return t

alts, onlys = [], []
own = set(t[0] for t in types)
for name, fields, used in roots:
    lines, al, ol = [], [], []
    for f in fields:
        if isinstance(f, tuple):
            n = types[f[1]][0]
            if n in used: continue
            used.add(n)
            f = "\t*%s %s" % (n, f[2])
        lines.append(f)
        head, tick, rest = f.strip("\t").partition("`")
        tg = tick + rest
        parts = head.split()
        if len(parts) == 1 and parts[0].lstrip("*") in own:
            star = "*" if parts[0][0] == "*" else ""
            base = parts[0].lstrip("*")
            al.append("\t%s%s %s" % (star, alt_name("gA", base), alt_tag(tg, star and base[0].islower())))
            ol.append("\t%s%s %s" % (star, alt_name("gO", base), only_tag(tg, True)))
        else:
            al.append("\t%s %s" % (head, alt_tag(tg, typ=parts[-1])))
            ol.append("\t%s %s" % (head, only_tag(tg, len(parts) == 1)))
    src.append("type %s struct {\n%s\n}\n" % (name, "\n".join(lines)))
    alts.append("type %s struct {\n%s\n}\n" % (alt_name("gA", name), "\n".join(al)))
    onlys.append("type %s struct {\n%s\n}\n" % (alt_name("gO", name), "\n".join(ol)))
src += alts + onlys
with open(out, "w") as f:
    f.write("// Code generated by tools/genstructs.py %d %d; DO NOT EDIT.\n\npackage main\n\nimport (\n\t\"encoding/json\"\n\t\"fmt\"\n\t\"reflect\"\n)\n\nvar _ json.Number\n\n" % (seed, count))
    f.write("\n".join(src))
    f.write("\n// from here on the types have few members\nconst gsSmall = %d\n" % count)
    f.write("\nvar gsTypes = []reflect.Type{\n")
    for n, d in types:
        f.write("\ttOf(%s{}),\n" % n)
    f.write("}\n")
    for var, pre in (("gsAlt", "gA"), ("gsOnly", "gO")):
        f.write("\nvar %s = []reflect.Type{\n" % var)
        for n, d in types:
            f.write("\ttOf(%s{}),\n" % alt_name(pre, n))
        f.write("}\n")
