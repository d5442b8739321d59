#!/usr/bin/env python3
"""Generates the type catalogue: catalog.ndjson (read by the TLA+ specification and the
harness) and the Go declarations of the same types.

  gencat.py SEED OUTDIR        writes OUTDIR/catalog.ndjson, OUTDIR/types_gen.go

The first part is systematic and the same for every seed, the last part is random.
Class tags per entry: mc (small, for exhaustive exploration), ok / bad, zero (contains a list of
zero-size elements), big (a length bound does not fit in 64 bits), cont (a struct)."""
import json, random, sys, zlib

U64 = 2 ** 64 - 1

def digits(n):
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    return out

# ---- G-types -------------------------------------------------------------------------------
BOOL = {"k": "bool"}
def uint(n): return {"k": "uint", "n": n}
U8, U16, U32, U64T = uint(1), uint(2), uint(4), uint(8)
def array(n, e): return {"k": "array", "n": n, "e": e}
def bitvec(bits, nbytes=None): return {"k": "array", "n": (bits + 7) // 8 if nbytes is None else nbytes, "e": U8, "bl": bits}
def slice_(lim, e):
    r = {"k": "slice", "e": e}
    if lim is not None:
        r["lim"] = digits(lim)
        r["_lim"] = lim
    return r
def bytesl(lim): return slice_(lim, U8)
def bitlist(lim):
    r = slice_(lim, U8)
    r["bl"] = True
    return r
def ptr(e): return {"k": "ptr", "e": e}
def bad(name): return {"k": "bad", "name": name}
def fld(t, emb=False, omit=False, squash=False, tag=None, lower=False, blank=False):
    r = {"t": t, "emb": emb, "omit": omit, "squash": squash, "_tag": tag, "_lower": lower}
    if blank: r["_blank"] = True
    return r
def struct(*fs): return {"k": "struct", "fs": [f if "t" in f else fld(f) for f in fs]}
def named(g):  # the same kind under a user-defined name
    r = dict(g)
    r["_named"] = True
    return r
def clone(g): return json.loads(json.dumps(g))

# Names that fields of real types have; what they are must not matter.
REAL = ["Signature", "Root", "Slot", "Data", "Length", "Body", "Value", "Index", "Omit", "Squash", "SSZ", "Limit", "Offset",
        "PrevRoot", "Bits", "Fixed", "A", "Zz", "Ärger", "X_y", "Signature2", "Type", "BitLen", "MinLen"]

def field_names(g):
    """The names of the fields that are not embedded. In a third of the structs real-life ones."""
    if "_names" in g: return g["_names"]
    key = json.dumps(g, sort_keys=True).encode()
    h = zlib.crc32(key)
    pool = REAL[:]
    random.Random(h).shuffle(pool)
    out = []
    for i, f in enumerate(g["fs"]):
        if "_blank" in f: out.append("_")
        elif f["_lower"]: out.append("f%d" % i)
        elif h % 3 == 0 and i < len(pool): out.append(pool[i])
        else: out.append("F%d" % i)
    if h % 6 == 0 and len(out) > 1 and "Signature" not in out and not g["fs"][h % len(out)]["_lower"] and "_blank" not in g["fs"][h % len(out)]: out[h % len(out)] = "Signature"
    return out

def local(g):
    """Declared within a function, under the same name as all other such types."""
    return g["k"] == "struct" and not g.get("_named") and zlib.crc32(json.dumps(g, sort_keys=True).encode()) % 4 == 1

# ---- Go source -----------------------------------------------------------------------------
class Gen:
    def __init__(self):
        self.decls, self.cache, self.body, self.n = [], {}, {}, 0

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def expr(self, g):
        key = json.dumps(g, sort_keys=True)
        if key in self.cache:
            return self.cache[key]
        r = self.expr0(g)
        self.cache[key] = r
        return r

    def expr0(self, g):
        k = g["k"]
        if k == "bad":
            if g.get("_named"):
                nm = self.fresh("U")
                self.decls.append("type %s %s" % (nm, g["name"]))
                return nm
            return g["name"]
        if k in ("bool", "uint"):
            base = "bool" if k == "bool" else "uint%d" % (8 * g["n"])
            if g.get("_named"):
                nm = self.fresh("N")
                self.decls.append("type %s %s" % (nm, base))
                return nm
            return base
        if k == "ptr":
            return "*" + self.expr(g["e"])
        if k == "array":
            base = "[%d]%s" % (g["n"], self.expr(g["e"]))
            if "bl" in g:
                nm = self.fresh("V")
                self.decls.append("type %s %s\n\nfunc (*%s) BitLen() uint64 { return %d }" % (nm, base, nm, g["bl"]))
                return nm
            if g.get("_named"):
                nm = self.fresh("A")
                self.decls.append("type %s %s" % (nm, base))
                return nm
            return base
        if k == "slice":
            base = "[]" + self.expr(g["e"])
            if "lim" not in g and not g.get("bl"):
                if g.get("_named"):
                    nm = self.fresh("X")
                    self.decls.append("type %s %s" % (nm, base))
                    return nm
                return base
            nm = self.fresh("B" if g.get("bl") else "L")
            d = "type %s %s" % (nm, base)
            if "lim" in g:
                d += "\n\nfunc (*%s) Limit() uint64 { return %d }" % (nm, g["_lim"])
            if g.get("bl"):
                d += "\n\nfunc (*%s) BitLen() uint64 { return 0 }" % nm
            self.decls.append(d)
            return nm
        if k == "struct":
            lines, used = [], field_names(g)
            for i, f in enumerate(g["fs"]):
                te = self.expr(f["t"])
                tag = f["_tag"]
                if tag is None:
                    flags = (["omit"] if f["omit"] else []) + (["squash"] if f["squash"] else [])
                    tag = 'ssz:"%s"' % ",".join(flags) if flags else ""
                tag = " `%s`" % tag if tag else ""
                if f["emb"]:
                    lines.append("\t%s%s" % (te, tag))
                else:
                    lines.append("\t%s %s%s" % (used[i], te, tag))
            self.body[json.dumps(g, sort_keys=True)] = "\n".join(lines)
            nm = self.fresh("S")
            self.decls.append("type %s struct {\n%s\n}" % (nm, "\n".join(lines)))
            return nm
        raise Exception(k)

def strip(g):
    """without the private keys"""
    if isinstance(g, dict):
        r = {k: strip(v) for k, v in g.items() if not k.startswith("_")}
        # TLC's integers have 32 bits; such a bit length never matches an array's size anyway
        if "bl" in r and r["bl"] is not True and r["bl"] > 10 ** 9: r["bl"] = 10 ** 9
        return r
    if isinstance(g, list):
        return [strip(x) for x in g]
    return g

def with_names(g, gen):
    """stripped, and with the names of the struct fields, as character codes"""
    r = strip(g)
    def walk(g, r):
        if "e" in g: walk(g["e"], r["e"])
        used = field_names(g) if "fs" in g else []
        for i, f in enumerate(g.get("fs", [])):
            nm = gen.expr(f["t"]).lstrip("*") if f["emb"] else used[i]
            r["fs"][i]["nm"] = list(nm.encode())
            walk(f["t"], r["fs"][i]["t"])
    walk(g, r)
    return r

# ---- static facts (only to classify, the oracle is the specification) -------------------------
class BadT(Exception):
    pass

def info(g):
    """(fixed, fl, min, max, zero)"""
    k = g["k"]
    if k == "bool": return (True, 1, 1, 1, False)
    if k == "uint": return (True, g["n"], g["n"], g["n"], False)
    if k == "ptr": return info(g["e"])
    if k == "bad": raise BadT(g["name"])
    if k == "array":
        if g["e"].get("k") == "uint" and g["e"]["n"] == 1:
            if "bl" in g and (g["bl"] + 7) // 8 != g["n"]: raise BadT("bitvector size")
            return (True, g["n"], g["n"], g["n"], False)
        fx, fl, mi, ma, z = info(g["e"])
        if fx: return (True, fl * g["n"], fl * g["n"], fl * g["n"], z)
        return (False, 4 * g["n"], g["n"] * (4 + mi), g["n"] * (4 + ma), z)
    if k == "slice":
        if "lim" not in g: raise BadT("no limit")
        lim = g["_lim"]
        if g["e"].get("k") == "uint" and g["e"]["n"] == 1:
            if g.get("bl"): return (False, 0, 1, lim // 8 + 1, False)
            return (False, 0, 0, lim, False)
        fx, fl, mi, ma, z = info(g["e"])
        if fx: return (False, 0, 0, lim * fl, z or fl == 0)
        return (False, 0, 0, lim * (4 + ma), z)
    if k == "struct":
        fs = flat(g)
        fx, fl, mi, ma, z = True, 0, 0, 0, False
        for f in fs:
            a, b, c, d, e = info(f)
            z = z or e
            if a: fl += b; mi += b; ma += b
            else: fx = False; fl += 4; mi += 4 + c; ma += 4 + d
        return (fx, fl, mi, ma, z)

def flat(g):
    out = []
    for f in g["fs"]:
        if f["omit"]: continue
        info(f["t"])
        if f["squash"] and f["t"]["k"] != "struct": raise BadT("squash")
        if f["squash"] or (f["emb"] and f["t"]["k"] == "struct"): out += flat(f["t"])
        else: out.append(f["t"])
    return out

def norm(g):
    """the same type without pointers, omitted fields, embedding, squashing and names"""
    k = g["k"]
    if k == "ptr": return norm(g["e"])
    if k == "struct":
        return struct(*[fld(norm(t)) for t in flat(g)])
    r = {a: b for a, b in g.items() if a != "_named"}
    if k in ("array", "slice"):
        e = norm(g["e"])
        # a pointer to a byte is no byte: such a series is not a byte string
        r["e"] = g["e"] if g["e"]["k"] == "ptr" and e == U8 else e
    return r

def depth(g):
    k = g["k"]
    if k == "struct": return 1 + max([depth(f["t"]) for f in g["fs"]] + [0])
    if k in ("array", "slice", "ptr"): return 1 + depth(g["e"])
    return 0

# ---- the catalogue -------------------------------------------------------------------------
def small_types():
    """few values each: explored exhaustively by TLC"""
    t = [U8, U16, BOOL, array(0, U8), array(1, U8), array(3, U8), bitvec(1), bitvec(8), bitvec(9), bitvec(0),
         bitlist(0), bitlist(1), bitlist(7), bitlist(8), bitlist(9), bytesl(0), bytesl(1), bytesl(3),
         array(2, BOOL), array(1, U16), array(0, U32), slice_(0, BOOL), slice_(2, BOOL), slice_(2, U16), slice_(1, U64T),
         struct(), struct(U8), struct(BOOL, U16), struct(bytesl(2)), struct(U8, bytesl(2), BOOL),
         struct(bytesl(2), slice_(2, U16)), struct(bitlist(3), U8, bitlist(9)),
         slice_(2, bytesl(2)), slice_(2, bitlist(2)), slice_(0, bytesl(1)), slice_(2, struct(U8, BOOL)), slice_(2, array(2, U8)),
         array(2, bytesl(2)), array(0, bytesl(2)), array(1, bitlist(4)), array(2, struct(BOOL)), array(2, bitvec(3)),
         slice_(2, struct(bytesl(1), U8)), struct(struct(bytesl(1)), bytesl(1)), struct(slice_(2, bytesl(1)), U8),
         slice_(2, slice_(2, BOOL)), array(2, slice_(1, U16)), ptr(struct(ptr(U8), bytesl(1))), slice_(2, ptr(bytesl(1))),
         struct(fld(struct(U8, bytesl(1)), emb=True), BOOL), struct(fld(struct(U8, bytesl(1)), squash=True), fld(U16, omit=True), BOOL),
         struct(array(2, BOOL), slice_(2, struct())), slice_(1, struct()), slice_(3, array(0, U8)),
         struct(array(0, bytesl(1)), bytesl(2)), slice_(2, array(0, bytesl(1))), slice_(2, struct(slice_(1, U8), bytesl(1))),
         array(2, ptr(struct(BOOL))), slice_(2, ptr(BOOL)), struct(ptr(U16), ptr(struct(BOOL)), ptr(bitvec(3))), slice_(2, ptr(struct(U8, U8))), array(2, ptr(bitlist(3))),
         U32, U64T, array(2, U64T), array(5, U16), bitvec(15), bitvec(16), bitvec(17), bytesl(33), bitlist(17), slice_(3, U32), array(33, U8), slice_(5, array(33, U8)),
         struct(slice_(1, bytesl(1)), fld(BOOL, omit=True), struct(bitlist(2), U8)), struct(fld(struct(fld(struct(U8, bytesl(1)), squash=True), fld(U8, omit=True)), emb=True), bitvec(5)),
         array(2, array(2, bytesl(1))), slice_(2, array(2, bitlist(1))), array(2, struct(bytesl(1), BOOL)), slice_(3, slice_(1, slice_(1, U8))), array(3, ptr(U16)),
         struct(U8, struct(U8, struct(U8, bytesl(1))), bytesl(1)), slice_(2, struct(BOOL, ptr(bytesl(1)), bitlist(1)))]
    return t

def hist_types():
    """those whose histories are explored"""
    return [struct(bytesl(2), slice_(2, U16)), slice_(2, bitlist(2)), slice_(2, struct(bytesl(1), U8)), ptr(struct(ptr(U8), bytesl(1))), slice_(2, ptr(bytesl(1))),
            struct(fld(struct(U8, bytesl(1)), squash=True), fld(U16, omit=True), BOOL), struct(bitlist(3), U8, bitlist(9)), array(2, ptr(struct(BOOL)))]

def pair_types():
    """those whose sequences on one stream are explored"""
    return [U16, bytesl(3), bitlist(7), struct(U8, bytesl(2), BOOL), slice_(2, bytesl(2)), array(0, U32)]

LIMS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 1024, 2048,
        2 ** 16, 2 ** 16 + 1, 2 ** 20, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 40, 2 ** 58, 2 ** 61, 2 ** 61 + 1, 2 ** 63, U64 - 1, U64]

def systematic():
    t = [U32, U64T, named(U8), named(U16), named(U64T), named(BOOL)]
    t += [array(n, U8) for n in (2, 4, 8, 20, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 128, 129, 256, 300)]
    t += [bitvec(n) for n in (2, 3, 4, 5, 6, 7, 15, 16, 17, 64, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 263, 264, 265, 511, 512, 513, 520, 1024, 1025)]
    t += [bitlist(n) for n in LIMS + [2, 3, 4, 5, 6, 10, 15, 249, 250, 251, 252, 253, 254, 263, 264, 265, 511, 512, 513, 767, 768, 769]]
    t += [bytesl(n) for n in LIMS]
    for e in (BOOL, U16, U32, U64T):
        t += [array(n, e) for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65)]
        t += [slice_(n, e) for n in LIMS]
    t += [array(4, named(U16)), slice_(9, named(U64T)), slice_(40, named(BOOL)), array(33, named(U8)), slice_(70, named(U8)), named(array(5, U32))]
    fx, vr = struct(U64T, array(32, U8), BOOL), struct(U16, bytesl(40), U64T)
    for n in (0, 1, 2, 3, 4, 5, 8, 9, 17):
        t += [array(n, fx), array(n, vr), array(n, array(32, U8)), array(n, bytesl(7)), array(n, bitlist(12)), array(n, struct(BOOL)), array(n, slice_(5, U16))]
    for n in (0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 1024, 2 ** 24, 2 ** 32 + 5, 2 ** 40, 2 ** 63, U64):
        t += [slice_(n, fx), slice_(n, vr), slice_(n, array(32, U8)), slice_(n, bytesl(33)), slice_(n, bitlist(11)),
              slice_(n, slice_(6, U32)), slice_(n, array(2, U64T)), slice_(n, array(2, bytesl(3))), slice_(n, bitvec(10)), slice_(n, array(3, BOOL))]
    # field counts, fixed and variable in every position
    for n in (2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65):
        t += [struct(*[U8] * n), struct(*[[U64T, U8, bytesl(5), BOOL, array(33, U8)][i % 5] for i in range(n)])]
    for a in (U8, BOOL, bytesl(3), bitlist(9), slice_(3, U64T)):
        for b in (U64T, bytesl(300), slice_(3, bytesl(4)), array(2, U16)):
            t += [struct(a, b), struct(b, a, b)]
    # memory padding, names, unexported fields
    t += [struct(U8, U64T, BOOL, U32, U16, U8), struct(fld(U64T, lower=True), fld(bytesl(4), lower=True), U8),
          struct(BOOL, struct(U8, U64T), BOOL, array(3, U16), U64T)]
    # pointers everywhere
    # elements behind pointers, more than fit in a chunk
    t += [array(70, ptr(U8)), slice_(100, ptr(U8)), slice_(2000, ptr(BOOL)), slice_(40, ptr(U16)), array(9, ptr(U64T)), slice_(17, ptr(ptr(U32))), array(33, ptr(BOOL)), slice_(64, ptr(array(3, U8)))]
    t += [ptr(U64T), ptr(ptr(U32)), ptr(bytesl(9)), ptr(bitlist(9)), ptr(bitvec(9)), ptr(array(3, U16)), array(3, ptr(U16)), slice_(5, ptr(U8)),
          slice_(5, ptr(BOOL)), slice_(4, ptr(fx)), slice_(4, ptr(vr)), array(3, ptr(vr)), struct(ptr(U8), ptr(vr), ptr(fx), ptr(slice_(3, U16))),
          ptr(ptr(struct(ptr(ptr(bytesl(5))), U8))), slice_(3, ptr(ptr(bytesl(5)))), array(2, ptr(array(2, ptr(BOOL)))), array(4, ptr(U8)), slice_(3, ptr(slice_(3, ptr(U64T))))]
    for e in (BOOL, U8, U64T, struct(), struct(BOOL), struct(U8), struct(U16, U64T), array(0, U8), array(1, BOOL), array(1, U8), bitvec(3), bitvec(0), struct(fld(U32, omit=True)),
              struct(struct(BOOL)), bytesl(2), bitlist(5), slice_(2, BOOL)):
        t += [array(2, ptr(e)), struct(ptr(e), U8, ptr(e))] + ([slice_(3, ptr(e))] if info(e)[:2] != (True, 0) else [])
    # deep nesting
    g1, g2, g3 = U16, bytesl(4), bitlist(5)
    for i in range(6):
        g1, g2, g3 = array(2, g1) if i % 2 else struct(g1, U8), slice_(3, g2) if i % 2 else struct(U8, g2), array(2, g3) if i % 3 == 0 else slice_(2, g3)
        t += [g1, g2, g3]
    # bits and bytes of a named type of bytes
    for e in (named(U8),):
        def of(g): return dict(g, e=e)
        t += [of(x) for x in (bitvec(5), bitvec(16), bitvec(257), bitlist(9), bitlist(300), bytesl(40), array(5, U8), array(32, U8))]
        t += [struct(U8, of(bitlist(9)), of(bitvec(9))), slice_(3, of(bitlist(12))), array(2, of(bitvec(12))), slice_(3, of(bytesl(5))), ptr(of(bitlist(7)))]
    # blank fields
    t += [struct(fld(U16, blank=True), U8), struct(U8, fld(U32, blank=True), bytesl(4), fld(U8, blank=True)), struct(fld(bytesl(4), blank=True), fld(bitlist(4), blank=True)),
          slice_(3, struct(U8, fld(BOOL, blank=True))), array(2, struct(fld(U64T, blank=True), fld(bytesl(3), blank=True))), struct(fld(U16, blank=True, omit=True), U8),
          struct(U8, fld(struct(U8, bytesl(3)), blank=True, squash=True), fld(ptr(U16), blank=True))]
    # many fields
    for n in (127, 128, 129, 255, 256, 257, 300):
        t += [struct(*[[bytesl(3), bitlist(5), slice_(2, U16)][i % 3] for i in range(n)]), struct(*[[U8, bytesl(2), BOOL][i % 3] for i in range(n)])]
    t += [struct(*[U8] * 257), struct(*[array(33, U8)] * 256), slice_(2, struct(*[bytesl(1)] * 257)), struct(U8, struct(*[bytesl(1)] * 256), bytesl(2))]
    # long series
    for n in (255, 256, 257, 300, 513, 1024, 1025): t += [array(n, bytesl(1)), array(n, struct(U8, U16)), array(n, U16), array(n, BOOL)]
    # lists of zero-size elements
    t += [slice_(5, struct(fld(U8, omit=True))), slice_(4, bitvec(0)), struct(U8, slice_(3, struct())), slice_(3, struct(slice_(2, array(0, U16))))]
    return t

def eth2():
    root, sig = array(32, U8), array(96, U8)
    checkpoint = struct(U64T, root)
    attdata = struct(U64T, U64T, root, checkpoint, checkpoint)
    att = struct(bitlist(2048), attdata, bitlist(2048), sig)
    header = struct(U64T, root, root, root, sig)
    proposer = struct(U64T, header, header)
    idx = struct(slice_(4096, U64T), slice_(4096, U64T), attdata, sig)
    attslash = struct(idx, idx)
    depdata = struct(array(48, U8), root, U64T, sig)
    deposit = struct(array(33, root), depdata)
    exit_ = struct(U64T, U64T, sig)
    transfer = struct(U64T, U64T, U64T, U64T, U64T, array(48, U8), sig)
    body = struct(sig, struct(root, U64T, root), root, slice_(16, proposer), slice_(1, attslash), slice_(128, att), slice_(16, deposit), slice_(16, exit_), slice_(16, transfer))
    block = struct(U64T, root, root, body, sig)
    fork = struct(array(4, U8), array(4, U8), U64T)
    validator = struct(array(48, U8), root, U64T, BOOL, U64T, U64T, U64T, U64T)
    state = struct(U64T, U64T, fork, header, array(8, root), array(8, root), slice_(2 ** 24, root), struct(root, U64T, root), slice_(1024, struct(root, U64T, root)), U64T,
                   slice_(2 ** 40, validator), slice_(2 ** 40, U64T), array(8, root), slice_(4096 * 8, struct(bitlist(2048), attdata, U64T, U64T)), bitvec(4), checkpoint)
    return [checkpoint, attdata, att, header, proposer, idx, attslash, depdata, deposit, exit_, transfer, body, block, fork, validator, state,
            slice_(2 ** 40, validator), slice_(1024, att)]

def mapping():
    """embedding, squashing, omission; supported"""
    inner = struct(U8, bytesl(4), U16)
    fixd = struct(U16, BOOL)
    two = struct(fld(inner, emb=True), U64T)
    t = [struct(fld(inner, emb=True)), struct(fld(inner, emb=True), fld(fixd, emb=True)), struct(U8, fld(fixd, emb=True), bytesl(5)),
         struct(fld(inner, squash=True)), struct(U64T, fld(inner, squash=True), BOOL), struct(fld(two, emb=True), U8), struct(fld(two, squash=True), bytesl(9)),
         struct(fld(two, squash=True), fld(inner, squash=True), fld(fixd, squash=True)),
         struct(fld(U8, omit=True), U16), struct(U16, fld(bytesl(5), omit=True), bytesl(4)), struct(fld(inner, omit=True), U8), struct(fld(inner, emb=True, omit=True), U8),
         struct(fld(inner, squash=True, omit=True), U8), struct(fld(U8, omit=True)), struct(U8, fld(struct(fld(U16, omit=True), bytesl(2), fld(U8, omit=True)), squash=True), U32),
         struct(fld(struct(), emb=True), U8), struct(U8, fld(struct(), squash=True)), struct(fld(struct(fld(U8, omit=True)), squash=True)),
         # embedded, not a struct: an ordinary field
         struct(fld(bytesl(3), emb=True), U8), struct(fld(named(U16), emb=True), BOOL), struct(fld(bitvec(5), emb=True), fld(bitlist(5), emb=True)), struct(U8, fld(slice_(3, U16), emb=True)),
         struct(fld(ptr(fixd), emb=True), U8), struct(U8, fld(ptr(inner), emb=True), U16),
         # tags
         struct(fld(U8, tag='ssz:"whatever"'), U16), struct(fld(U8, omit=True, tag='ssz:"foo,omit"'), U16), struct(fld(U8, omit=True, tag='ssz:"omit,foo"'), U16),
         struct(fld(U8, omit=True, tag='json:"x" ssz:"omit"'), U16), struct(fld(U8, tag='json:"omit"'), U16), struct(fld(U8, tag='ssz:""'), U16),
         struct(fld(U8, tag='ssz:"omitted"'), U16), struct(fld(inner, tag='ssz:"squashed"'), U16), struct(fld(inner, squash=True, tag='ssz:"x,squash,y"'), U16),
         struct(fld(inner, squash=True, omit=True, tag='ssz:"squash,omit"'), U16), struct(fld(U8, tag='ssz:"Omit"'), U16), struct(fld(U8, tag='ssz:" omit"'), U16),
         struct(fld(U8, omit=True, tag='ssz:",omit"'), U16), struct(fld(U8, omit=True, tag='ssz:"omit,"'), U16), struct(fld(U8, omit=True, tag='ssz:"x,,omit"'), U16),
         struct(fld(inner, squash=True, tag='ssz:",squash,"'), U16), struct(fld(U8, omit=True, tag='ssz:",,,omit,x"'), U16), struct(fld(U8, tag='ssz:"-"'), U16),
         struct(fld(U8, omit=True, tag='yaml:"-" ssz:",omit" json:",squash"'), U16), struct(fld(inner, tag='json:"squash"'), U16), struct(fld(U8, tag='SSZ:"omit"'), U16),
         struct(fld(inner, squash=True, emb=True), U16), struct(fld(U8, tag='ssz:"om,it"'), BOOL), struct(fld(fixd, tag='ssz:","'), BOOL),
         # omitted fields may have any type
         struct(fld(bad("map[string]int"), omit=True), U8), struct(U8, fld(bad("func()"), omit=True)), struct(fld(bad("string"), omit=True), bytesl(3)), struct(fld(slice_(None, U8), omit=True), U8),
         struct(fld(bad("interface{}"), omit=True), fld(bad("int"), omit=True), U16, fld(bad("chan int"), omit=True)),
         struct(U16, fld(named(bad("map[string]int")), emb=True, omit=True)), struct(fld(named(bad("func()")), emb=True, omit=True), bytesl(3)),
         struct(fld(named(bad("interface{}")), emb=True, omit=True), U8), struct(fld(struct(bad("int"), U8), emb=True, omit=True), U64T),
         struct(U8, fld(struct(U8, bad("string")), squash=True, omit=True), bytesl(4)), struct(fld(bad("chan int"), squash=True, omit=True), U8),
         struct(fld(struct(fld(named(bad("string")), emb=True, omit=True), U16), squash=True), U8), struct(fld(ptr(struct(bad("int"))), emb=True, omit=True), U8),
         struct(fld(struct(fld(bad("int"), omit=True), bytesl(2)), emb=True), U8), struct(fld(struct(slice_(None, U8)), omit=True), U16),
         struct(fld(named(slice_(None, U16)), emb=True, omit=True), U16), struct(fld(slice_(None, U16), squash=True, omit=True), bytesl(3)),
         # omission inside elements of vectors, lists and behind pointers
         array(2, struct(fld(U64T, omit=True), U16)), array(3, struct(U8, fld(bytesl(3), omit=True), bytesl(3))), slice_(3, struct(fld(U64T, omit=True), U16)),
         slice_(3, struct(bytesl(3), fld(U8, omit=True))), ptr(struct(fld(U8, omit=True), U16)), struct(ptr(struct(fld(U8, omit=True), U16)), U8), slice_(2, ptr(struct(fld(U8, omit=True), bytesl(2)))),
         array(2, ptr(struct(fld(U8, omit=True), bytesl(2))))]
    # squash of squash of squash
    g = struct(U8, fld(U16, omit=True))
    for i in range(4):
        g = struct(fld(g, squash=bool(i % 2), emb=not i % 2), [U16, bytesl(3), BOOL, bitlist(4)][i])
        t.append(g)
    return t

BADNAMES = ["int8", "int16", "int32", "int64", "int", "uint", "uintptr", "float32", "float64", "complex64", "complex128", "string", "map[uint8]uint8",
            "interface{}", "func()", "chan uint8", "error", "unsafe.Pointer"]

def bads(rnd):
    t = [bad(n) for n in BADNAMES]
    for n in BADNAMES:
        b = bad(n)
        t += [rnd.choice([ptr(b), array(2, b), slice_(5, b), struct(b), struct(U8, b), struct(b, U8), array(0, b), slice_(0, b), struct(U8, struct(b), U8),
                          slice_(3, struct(b)), array(2, struct(U8, b)), struct(fld(struct(U8, b), squash=True)), struct(fld(struct(U8, b), emb=True)), ptr(ptr(b)), struct(ptr(b)),
                          slice_(4, slice_(4, b)), array(2, array(2, b))]) for _ in range(3)]
        t += [slice_(5, b), array(3, b), struct(U8, b, bytesl(3))]
        if n != "unsafe.Pointer": t += [struct(U8, fld(named(b), emb=True))]
    for e in (U8, BOOL, U16, U32, U64T, struct(U8), bytesl(3), ptr(U8), array(2, U8)):
        n = slice_(None, e)
        t += [n, struct(n), array(2, n), slice_(4, n), ptr(n), struct(U8, fld(struct(n), emb=True))]
    t.append(named(slice_(None, U8)))
    t.append(named(slice_(None, U16)))
    nb = slice_(None, U8); nb["bl"] = True
    t += [nb, struct(nb)]
    for bits, nb in ((8, 2), (9, 1), (0, 1), (1, 0), (16, 1), (17, 2), (15, 3), (8, 0), (256, 33), (257, 32), (U64, 3), (U64 - 7, 0), (2 ** 32 + 8, 1), (2 ** 16 + 8, 1)):
        v = bitvec(bits, nb)
        t += [v, struct(U8, v), slice_(3, v), array(2, v)]
    for e in (U8, U64T, BOOL, array(3, U8), bytesl(4), bitlist(4), bitvec(4), array(2, struct(U8)), slice_(3, struct(U8)), ptr(struct(U8)), ptr(U8), named(U16)):
        t += [struct(fld(e, squash=True)), struct(U8, fld(e, squash=True), U16)]
    t += [struct(fld(ptr(struct(U8)), squash=True, emb=True)), struct(fld(bytesl(3), squash=True, emb=True)), struct(fld(struct(fld(U8, squash=True)), squash=True)),
          struct(U8, struct(fld(slice_(3, U8), squash=True))), slice_(3, struct(fld(U16, squash=True)))]
    return t

def rand_type(rnd, d, var_ok=True):
    r = rnd.random()
    if d == 0 or r < 0.25:
        c = rnd.randrange(9)
        if c < 4: g = [U8, U16, U32, U64T][c]
        elif c == 4: g = BOOL
        elif c == 5: g = array(rnd.choice([0, 1, 2, 4, 5, 31, 32, 33, 48, 64, 65, 96]), U8)
        elif c == 6: g = bitvec(rnd.choice([0, 1, 4, 7, 8, 9, 16, 17, 63, 64, 255, 256, 257, 300]))
        elif c == 7: g = bitlist(rnd.choice([0, 1, 3, 7, 8, 9, 16, 40, 255, 256, 257, 600, 2 ** 33, U64]))
        else: g = bytesl(rnd.choice([0, 1, 5, 31, 32, 33, 64, 100, 300, 2 ** 33, U64]))
        if g["k"] in ("uint", "bool") and rnd.random() < 0.15: g = named(g)
    elif r < 0.40:
        e = rand_type(rnd, d - 1)
        g = array(rnd.choice([0, 1, 2, 2, 3, 3, 4, 5, 8, 9]), e)
    elif r < 0.62:
        e = rand_type(rnd, d - 1)
        g = slice_(rnd.choice([0, 1, 2, 3, 3, 4, 4, 5, 7, 8, 9, 16, 33, 100, 1000, 2 ** 20, 2 ** 40]), e)
    else:
        fs = []
        for _ in range(rnd.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 9])):
            f = rand_type(rnd, d - 1)
            x = rnd.random()
            if x < 0.12: fs.append(fld(f, omit=True))
            elif x < 0.30 and f["k"] == "struct": fs.append(fld(f, squash=True))
            elif x < 0.42 and f["k"] == "struct": fs.append(fld(f, emb=True))
            elif x < 0.46 and f["k"] == "slice" and "lim" in f: fs.append(fld(f, emb=True))
            else: fs.append(fld(f, lower=rnd.random() < 0.2))
        # embedded types must have distinct names within a struct: keep the first of equal ones
        seen, fs2 = set(), []
        for f in fs:
            if f["emb"]:
                key = json.dumps(f["t"], sort_keys=True)
                if key in seen: f = fld(f["t"], squash=f["t"]["k"] == "struct")
                seen.add(key)
            fs2.append(f)
        g = struct(*fs2)
    if rnd.random() < 0.12: g = ptr(g)
    return g

def swaps():
    """Pairs of types of the same memory layout but different definitions: a factory gives the second's definition to
    the first. The catalogue holds the types made of the second ones; OUTER the same types made of the first ones."""
    pairs = [(struct(U16, U16), struct(fld(U16, omit=True), U16)), (struct(U16, U16), array(2, U16)), (array(3, U8), bitvec(20)),
             (array(4, U8), struct(U8, fld(U8, omit=True), U8, U8)), (bytesl(5), bitlist(30)), (bytesl(5), bytesl(9)), (bitlist(40), bytesl(6)),
             (struct(bytesl(4), U8), struct(fld(bytesl(4), omit=True), U8)), (struct(fld(bytesl(4), omit=True), U8), struct(bytesl(4), U8)),
             (slice_(3, U16), slice_(5, U16)), (BOOL, U8), (U8, BOOL), (U64T, struct(U64T)), (struct(U8, U8), struct(fld(U8, omit=True), fld(U8, omit=True)))]
    return series_of(pairs, 0)

def inverted():
    """Pairs of a type and the same with a definition of its own, whose encodings have all bits inverted."""
    ts = [struct(U16, U16), struct(U32), array(4, U8), array(2, U16), struct(BOOL, U8), U64T, BOOL, U8, U16, bitvec(12), bitvec(16), bytesl(5),
          slice_(3, U16), bitlist(9), struct(bytesl(3), U8), struct(U8, ptr(U16)), array(2, array(2, U8)), array(2, bytesl(2)), slice_(2, bytesl(2))]
    return series_of([(a, dict(clone(a), inv=True)) for a in ts], 1000)

def series_of(pairs, base):
    out = []
    for i, (a, b) in enumerate(pairs):
        mark = dict(clone(a), _named=True, _mark=base + i)
        x = dict(clone(b), _as=mark)
        var = not info(b)[0]
        size0 = not var and info(b)[1] == 0
        ts = [struct(U8, x, bytesl(3)), struct(ptr(x), U8), struct(struct(x, U8), x), struct(fld(struct(x, U8), squash=True), BOOL), array(2, ptr(x)), ptr(struct(x))]
        if a["k"] == b["k"] == "struct" and "inv" not in b: ts.append(struct(U8, fld(x, squash=True)))
        if a["k"] not in ("bool", "uint"): ts += [array(2, x), array(3, array(2, x)), struct(array(1, x), x)]
        if not size0: ts += [slice_(3, ptr(x)), slice_(2, struct(x, U8))]
        if not size0 and a["k"] not in ("bool", "uint"): ts += [slice_(3, x), slice_(2, slice_(2, x)), struct(slice_(3, x), U8, slice_(2, x))]
        out += ts
    return out

def outer(g):
    """the type with the first ones of the pairs"""
    if "_as" in g: return g["_as"]
    r = dict(g)
    if "e" in g: r["e"] = outer(g["e"])
    if "fs" in g:
        r["_names"] = field_names(g)
        r["fs"] = [dict(f, t=outer(f["t"])) for f in g["fs"]]
    r["_outer"] = True
    return r

def swap_pairs(g):
    if "_as" in g: yield g["_as"], g
    elif "e" in g: yield from swap_pairs(g["e"])
    for f in g.get("fs", []) if "_as" not in g else []: yield from swap_pairs(f["t"])

def size_ok(g):
    """keep vectors of vectors from exploding: size of a value with empty lists"""
    try:
        return info(g)[2] <= 3000
    except BadT:
        return True

def main():
    seed, out = int(sys.argv[1]), sys.argv[2]
    nrand = int(sys.argv[3]) if len(sys.argv) > 3 else 160
    rnd = random.Random(seed * 7919 + 1)
    entries = []
    def add(ts, *cls):
        for g in ts:
            entries.append((g, set(cls)))
    for g in small_types():
        add([g], "mc", *["hist"] * (g in hist_types()), *["pair"] * (g in pair_types()))
    add(systematic(), "sys")
    add(eth2(), "eth")
    add(mapping(), "map")
    add(bads(random.Random(5)), "badsys")
    add(bads(rnd), "badrnd")
    n = 0
    while n < nrand:
        g = rand_type(rnd, rnd.choice([2, 3, 3, 4]))
        if g["k"] not in ("struct", "slice", "array", "ptr") or not size_ok(g): continue
        add([g], "rnd")
        n += 1
    for g, cls in list(entries):
        try:
            info(g)
        except BadT:
            continue
        add([norm(g)], "nf")
    for i, g in enumerate(swaps()): add([g], "swap", *["swapmc"] * (i % 3 == 0))
    add(inverted(), "swap", "inv")
    gen = Gen()
    ids = {}
    seen, lines, names = set(), [], []
    for g, cls in entries:
        key = json.dumps(g, sort_keys=True)
        if key in seen: continue
        seen.add(key)
        try:
            fx, fl, mi, ma, z = info(g)
            cls.add("ok")
            if z: cls.add("zero")
            if ma > U64: cls.add("big")
            if g["k"] == "struct": cls.add("cont")
            if fx: cls.add("fixed")
            mn = mi
        except BadT:
            cls.add("bad")
            mn = 0
        names.append(gen.expr(g))
        if local(g): names[-1] = "func() reflect.Type { type T struct {\n%s\n}; return reflect.TypeOf((*T)(nil)).Elem() }()" % gen.body[key]
        ids[key] = len(lines) + 1
        lines.append({"id": len(lines) + 1, "go": gen.expr(g), "cls": sorted(cls), "min": mn, "nf": 0, "g": with_names(g, gen), "_g": g})
    for l in lines:
        g = l.pop("_g")
        if "swap" in l["cls"]: l["nf"] = l["id"]
        elif "ok" in l["cls"]: l["nf"] = ids[json.dumps(norm(g), sort_keys=True)]
    import os
    os.makedirs(out, exist_ok=True)
    with open(out + "/catalog.ndjson", "w") as f:
        for l in lines: f.write(json.dumps(l, separators=(",", ":")) + "\n")
    outers, pairs, inv = [], {}, []
    for g, cls in entries:
        if "swap" not in cls: continue
        outers.append("\t%d: reflect.TypeOf((*%s)(nil)).Elem(),\n" % (ids[json.dumps(g, sort_keys=True)], gen.expr(outer(g))))
        for a, b in swap_pairs(g):
            pairs[gen.expr(a)] = gen.expr(b)
            if "inv" in b: inv.append(gen.expr(a))
    body = "\n\n".join(gen.decls)
    with open(out + "/types_gen.go", "w") as f:
        f.write("// Code generated by tools/gencat.py; DO NOT EDIT.\n\npackage cat\n\nimport (\n\t\"reflect\"\n\t\"unsafe\"\n)\n\nvar _ unsafe.Pointer\n\n")
        f.write(body + "\n\n// Types lists the catalogue; entry i is catalogue id i+1.\nvar Types = []reflect.Type{\n")
        for nme in names: f.write("\t%s,\n" % nme if nme.startswith("func() reflect") else "\treflect.TypeOf((*%s)(nil)).Elem(),\n" % nme)
        f.write("}\n\n// Outers: types that stand for the ones of the catalogue when a factory swaps definitions.\nvar Outers = map[int]reflect.Type{\n")
        for o in outers: f.write(o)
        f.write("}\n\nvar Swaps = map[reflect.Type]reflect.Type{\n")
        for a, b in pairs.items(): f.write("\treflect.TypeOf((*%s)(nil)).Elem(): reflect.TypeOf((*%s)(nil)).Elem(),\n" % (a, b))
        f.write("}\n\n// Inverted: those whose definition also inverts the bits.\nvar Inverted = map[reflect.Type]bool{\n")
        for a in sorted(set(inv)): f.write("\treflect.TypeOf((*%s)(nil)).Elem(): true,\n" % a)
        f.write("}\n")
    print(len(lines), "types,", sum("bad" in l["cls"] for l in lines), "unsupported,", sum("mc" in l["cls"] for l in lines), "small")

main()
