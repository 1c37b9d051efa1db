"""Seeded programs using the collection macros, for include! by the monitors.

Every function calls visit_map!(cx, desc, collection, entries as written, K, Q, V) or
visit_set!(cx, desc, collection, values as written, K, Q); the including binary defines what
visiting means.
"""
import random

INTS = {
    "i8": (-(2**7), 2**7 - 1), "i16": (-(2**15), 2**15 - 1), "i32": (-(2**31), 2**31 - 1), "i64": (-(2**63), 2**63 - 1), "isize": (-(2**63), 2**63 - 1),
    "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
}


def rs(s):
    """A Rust string literal."""
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def str_src(r, x):
    """One of the ways of writing a literal."""
    k = r.randrange(6)
    if k == 0 and '"' not in x and "\n" not in x:
        return r.choice([f'r#"{x}"#', f'r"{x}"', f'r##"{x}"##'])
    if k == 1:
        return '"' + "".join("\\u{%x}" % ord(c) if r.random() < 0.5 or c in '"\\\n' else c for c in x) + '"'
    if k == 2:
        return '"' + "".join("\\x%02x" % ord(c) if ord(c) < 128 and (r.random() < 0.5 or c in '"\\\n') else c for c in x) + '"'
    if k == 3 and len(x) > 1 and not x[1].isspace():
        # a line continued on the next one
        return rs(x[0])[:-1] + "\\\n    " + rs(x[1:])[1:]
    return rs(x)


def ints(r, n, lo, hi, literal, shape=None):
    """Key values of some shape; only non-negative ones can be literals."""
    lo = max(lo, 0) if literal else lo
    n = min(n, hi - lo + 1)
    shape = shape or r.choice(["dense", "dense-at-min", "dense-at-max", "hole", "sparse", "sparse-edge", "random", "stride", "extremes", "clusters"])
    if shape.startswith("dense"):
        s = {"dense": r.randint(lo, min(hi - n + 1, lo + 5000)), "dense-at-min": lo, "dense-at-max": hi - n + 1}[shape]
        v = list(range(s, s + n))
    elif shape == "hole":
        s = r.randint(lo, min(hi - n, lo + 300)) if hi - n >= lo else lo
        v = list(range(s, min(s + n + 1, hi + 1)))
        if len(v) > 2:
            v.pop(r.randrange(1, len(v) - 1))
    elif shape in ("sparse", "sparse-edge"):
        span = r.randint(n, n * 10) if shape == "sparse" else r.choice([127, 128, 129, n * 10 - 1, n * 10, n * 10 + 1])
        span = max(n, min(span, hi - lo + 1))
        s = r.randint(lo, hi - span + 1)
        v = set([s, s + span - 1][:n])
        while len(v) < n:
            v.add(s + r.randrange(span))
        v = list(v)
    elif shape == "stride":
        st = 1 << r.randrange(0, 20)
        v = [x for x in range(lo, lo + n * st, st) if x <= hi]
    elif shape == "extremes":
        v = list({x for x in [lo, hi, lo + 1, hi - 1, (lo + hi) // 2, 0, 1] if lo <= x <= hi})[:max(n, 2)]
    elif shape == "clusters":
        a, b = r.randint(lo, hi), r.randint(lo, hi)
        v = [x for x in list(range(a, a + n // 2)) + list(range(b - n // 2, b)) if lo <= x <= hi] or [a]
    else:
        v = [r.randint(lo, hi) for _ in range(n)]
    v = list(dict.fromkeys(v))
    r.shuffle(v)
    return v, shape


def int_src(r, v, ty, suffix):
    """One of the ways of writing a literal."""
    k = r.randrange(8)
    if k == 0 and v >= 0:
        s = r.choice([hex(v), "0x" + hex(v)[2:].upper(), f"0x{v:_x}", f"0x00{v:x}"])
        if suffix and suffix[0] not in "iu":
            s = str(v)
    elif k == 1:
        s = f"{v:_}"
    elif k == 2:
        s = r.choice([bin(v), oct(v), f"0b{v:_b}_", f"0o0{v:o}"])
    elif k == 3:
        s = f"0{v}"
    else:
        s = str(v)
    return s + suffix


ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-. "


def code(i, w):
    s = ""
    for _ in range(w):
        s = chr(97 + i % 26) + s
        i //= 26
    return s


def strings(r, n, shape=None):
    w = 1
    while 26**w < n:
        w += 1
    shape = shape or r.choice(["random", "lengths", "lengths-uni", "left", "right", "middle", "decimal", "prefix", "suffix", "spread", "empty", "unicode", "near-lengths", "near-left", "left-lens", "right-lens"])
    word = lambda l: "".join(r.choice(ALPHA) for _ in range(l))
    if shape == "random":
        v = [word(r.randrange(0, 12)) for _ in range(n)]
    elif shape == "lengths":
        v = ["x" * (i + r.choice([0])) for i in range(n)]
    elif shape == "lengths-uni":
        # all different numbers of bytes, of which some characters take several
        v = []
        for i in range(n):
            x = ""
            while len(x.encode()) < i:
                c = r.choice("aé日𝄞z")
                if len((x + c).encode()) <= i:
                    x += c
            v.append(x)
    elif shape == "near-lengths":
        v = ["p" * (i // 2) + "ab"[i % 2] for i in range(n)]
    elif shape == "left":
        p, q = word(r.randrange(0, 5)), word(r.randrange(0, 9))
        v = [p + code(i * 7 % n if n % 7 else i, w) + q for i in range(n)]
    elif shape == "right":
        p, q = word(r.randrange(0, 9)), word(r.randrange(0, 4))
        v = [p + code(i, w) + q for i in range(n)]
    elif shape == "left-lens":
        p = word(r.randrange(0, 4))
        v = [p + code(i, w) + "t" * r.randrange(0, 9) for i in range(n)]
    elif shape == "right-lens":
        p = word(r.randrange(0, 4))
        v = ["t" * r.randrange(0, 9) + code(i, w) + p for i in range(n)]
    elif shape == "middle":
        v = [word(0) + "ab" + code(i, w) + "yz" for i in range(n)]
    elif shape == "near-left":
        v = [code(i - 1 if i % 23 == 7 else i, w) + ":" + str(i) for i in range(n)]
    elif shape == "decimal":
        v = [str(i * r.choice([1, 1, 37])) for i in range(n)]
    elif shape == "prefix":
        p = word(18)
        v = [p + str(i) for i in range(n)]
    elif shape == "suffix":
        p = word(18)
        v = [str(i) + p for i in range(n)]
    elif shape == "spread":
        v = []
        for i in range(n):
            s = ["-"] * 20
            for b in range(10):
                if i >> b & 1:
                    s[b * 2] = "#"
            v.append("".join(s))
    elif shape == "empty":
        v = [""] + [code(i, 1 if n <= 26 else 2) for i in range(n - 1)]
    else:
        v = [r.choice(["é", "日本", "ß", "𝄞", "a", "\n", '"', "\\", "{}"]) + code(i, w) + r.choice(["", "ü", "語"]) for i in range(n)]
    if r.random() < 0.35 and not shape.startswith("lengths"):
        # some letters become multi-byte characters
        table = {a: b for a, b in zip(r.sample(ALPHA, 20), "éßüñ日本語漢字𝄞😀ΩЖאء€½çøå")}
        v = ["".join(table.get(c, c) for c in x) for x in v]
        shape += "+uni"
    v = list(dict.fromkeys(v))
    r.shuffle(v)
    return v, shape


VIA = "".join(
    f"""#[allow(unused_macros)]
macro_rules! via_{how}_map {{ ([$($m:tt)*] [$($pre:tt)*] $($k:{how} => $v:expr),*) => {{ $($m)*! {{ $($pre)* {{ $($k: $v),* }} }} }} }}
#[allow(unused_macros)]
macro_rules! via_{how}_set {{ ([$($m:tt)*] [$($pre:tt)*] $($k:{how}),*) => {{ $($m)*! {{ $($pre)* {{ $($k),* }} }} }} }}
"""
    for how in ("expr", "literal")
)


class Fixture:
    def __init__(self, r, narrow=False):
        self.r = r
        # for a machine with 32-bit pointers: no 64-bit scalars there, and isize literals don't compile (DESIGN.md, D11)
        self.ints = {k: (max(v[0], -(2**31)), min(v[1], 2**32 - 1)) for k, v in INTS.items() if k not in ("i64", "u64", "isize")} if narrow else INTS
        self.fns = []
        self.consts = []
        self.n = 0
        self.forms = {}

    def value(self, i, const):
        return f"{i}u64"

    def const(self, ty, val):
        name = f"C{len(self.consts)}"
        self.consts.append(f"const {name}: {ty} = {val};")
        return name

    def add(self, kind, map_, form, K, Q, decl_k, keys, lazy, desc, dups=(), outK=None):
        """keys: (source in the macro, source of the expected key)."""
        r, no = self.r, self.n
        self.n += 1
        keys = list(keys)
        for _ in range(dups or 0):
            keys.append(r.choice(keys))
        vals = [f"{i + 1}u64" for i in range(len(keys))]
        # values, too, may be expressions: with local variables where the form allows it, constant ones anywhere
        local = "static" not in form
        way = r.randrange(3) if map_ else 0
        src = lambda v: v if way == 0 or r.random() < 0.4 else f"(none + {v})" if local else f"konst({v})"
        if map_:
            keys_vals = [(k[0], src(v)) for k, v in zip(keys, vals)]
            body = ", ".join(f"{k}: {v}" for k, v in keys_vals)
        else:
            body = ", ".join(k[0] for k in keys)
        if keys and r.random() < 0.5:
            body += ","
        mac = f"frozen_collections::fz_{kind}_{'map' if map_ else 'set'}!"
        ty = f"T{no}<{decl_k}, u64>" if map_ else f"T{no}<{decl_k}>"
        inv = lambda pre: f"{mac}({pre}{{{body}}})"
        if keys and r.random() < 0.25:
            # by way of a macro of the user's, where keys and values arrive in invisible groups
            how = "expr" if lazy or r.random() < 0.5 else "literal"
            listed = ", ".join(f"{k} => {v}" for k, v in keys_vals) if map_ else ", ".join(k[0] for k in keys)
            inv = lambda pre: f"via_{how}_{'map' if map_ else 'set'}!([frozen_collections::fz_{kind}_{'map' if map_ else 'set'}] [{pre}] {listed})"
            desc += f", passed on by a macro as {how}"
        if form == "short":
            m = inv("")
        elif form in ("let", "let mut"):
            m = f"{{ {inv(f'{form} x: {ty}, ')}; {'let _ = &mut x; ' if form == 'let mut' else ''}x }}"
        elif form.startswith("mod "):
            # declared in a module of its own, and used, with the type it declares, from here
            vis = form[4:-6]
            self.consts.append(f"#[allow(dead_code, unused_imports, clippy::all)]\nmod m{no} {{\n    use super::*;\n    {inv(f'{vis}static S{no}: {ty}, ')};\n    pub fn own() -> T{no} {{ S{no}.clone() }}\n}}")
            m = f"{{ let s: &m{no}::T{no} = &m{no}::S{no}; s.clone() }}" if vis else f"m{no}::own()"
        else:
            vis = "pub " if form == "pub static" else ""
            m = f"{{ {inv(f'{vis}static S{no}: {ty}, ')}; S{no}.clone() }}"
        if local:
            m = f"{{ let none = none(); {m} }}"
        exp_k = outK or K
        conv = lambda s: f"{s}.into()" if exp_k == "Box<str>" else s
        if map_:
            e = "vec![" + ", ".join(f"({conv(k[1])}, {v})" for k, v in zip(keys, vals)) + "]"
            call = f"visit_map!(cx, {rs(desc)}, {m}, {e}, {exp_k}, {Q}, u64);"
        else:
            e = "vec![" + ", ".join(conv(k[1]) for k in keys) + "]"
            call = f"visit_set!(cx, {rs(desc)}, {m}, {e}, {exp_k}, {Q});"
        self.forms[desc] = m
        self.fns.append(f"#[allow(unused_mut, unused_variables, dead_code, clippy::all)]\nfn f{no}(cx: &mut Ctx) {{\n    {call}\n}}\n")

    def maybe(self, ok):
        """How many keys to repeat; where expression keys cannot repeat (known finding D6) none."""
        return self.r.randint(1, 3) if ok and self.r.random() < 0.4 else 0

    def pick_n(self, small=14):
        r = self.r
        return r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20, 33]) if r.random() < 0.75 else r.randint(1, small * 3)

    def form(self, static_ok=True):
        return self.r.choice(["short", "short", "short", "let", "let mut", "static", "pub static", "mod static", "mod pub static", "mod pub(crate) static", "mod pub(super) static"] if static_ok else ["short", "let"])

    # -- the different key categories ------------------------------------------------------
    def int_literals(self, n=None, map_=None, dup=False, shape=None):
        r = self.r
        map_ = r.random() < 0.6 if map_ is None else map_
        kind = r.choice(["hash", "ordered", "scalar", "scalar"])
        ty = r.choice(list(self.ints) + ["i32"])
        v, shape = ints(r, n or self.pick_n(), *self.ints[ty], True, shape)
        how = r.choice(["all", "one"]) if ty != "i32" else r.choice(["all", "none", "none"])
        suffixed = r.randrange(len(v))
        src = [(int_src(r, x, ty, ty if how == "all" or (how == "one" and i == suffixed) else ""), f"{x}{ty}") for i, x in enumerate(v)]
        if dup and r.random() < 0.6:
            src += [(int_src(r, x, ty, ty if how == "all" else ""), f"{x}{ty}") for x in r.sample(v, min(len(v), 3))]
        self.add(kind, map_, self.form(), ty, ty, ty, src, False, f"{kind} {'map' if map_ else 'set'} of {len(v)} {ty} literals, {shape}", dups=r.randint(1, 3) if dup else 0)

    def str_literals(self, n=None, map_=None, dup=False, shape=None):
        r = self.r
        map_ = r.random() < 0.6 if map_ is None else map_
        kind = r.choice(["hash", "ordered", "string", "string"])
        v, shape = strings(r, n or self.pick_n(), shape)
        way = (lambda x: str_src(r, x)) if r.random() < 0.4 else rs
        src = [(way(x), rs(x)) for x in v]
        if dup and r.random() < 0.6:
            # the same key again, written otherwise
            src += [(str_src(r, x), rs(x)) for x in r.sample(v, min(len(v), 3))]
        self.add(kind, map_, self.form(), "&'static str", "str", "&'static str", src, False, f"{kind} {'map' if map_ else 'set'} of {len(v)} string literals, {shape}", dups=r.randint(1, 3) if dup else 0)

    def int_exprs(self, n=None, map_=None):
        """Scalars with at least one expression among the keys."""
        r = self.r
        map_ = r.random() < 0.6 if map_ is None else map_
        ty = r.choice([t for t in ["i8", "i16", "i32", "i64", "u8", "u32", "u64", "isize", "usize"] if t in self.ints])
        pure = r.random() < 0.4
        kind = r.choice(["scalar"] if pure else ["hash", "ordered", "scalar"])
        lo, hi = self.ints[ty]
        v, shape = ints(r, n or self.pick_n(), lo, hi, False)

        form = self.form()

        def src(i, x):
            if x >= 0 and i > 0 and not pure and r.random() < 0.6:
                return f"{x}{ty}"
            k = r.randrange(4)
            if "static" not in form and r.random() < 0.3:
                return f"(none as {ty} + {x}{ty})"
            if k == 0 and x > lo:
                return f"({x - 1}{ty} + 1)"
            if k == 1:
                return self.const(ty, x)
            if k == 2:
                return f"std::convert::identity({x}{ty})"
            return f"({x}{ty})" if x >= 0 else f"{x}{ty}"

        keys = [(src(i, x), f"{x}{ty}") for i, x in enumerate(v)]
        if not pure and not any(k[0][0].isdigit() for k in keys):
            keys.append((f"77{ty}", f"77{ty}")) if 77 not in v else None
        self.add(kind, map_, form, ty, ty, ty, keys, True, f"{kind} {'map' if map_ else 'set'} of {len(v)} {ty} expressions, {shape}", dups=self.maybe(len(keys) >= 8))

    def enums(self, n=None, map_=None, kind=None):
        r = self.r
        map_ = r.random() < 0.6 if map_ is None else map_
        kind = kind or r.choice(["scalar", "hash", "ordered"])
        k = r.sample(range(24), n or r.randint(1, 24))
        if r.random() < 0.4:
            s = r.randrange(0, 24 - len(k) + 1)
            k = list(range(s, s + len(k)))
        self.add(kind, map_, self.form(), "Hue", "Hue", "Hue", [(f"Hue::H{x}", f"Hue::H{x}") for x in k], True, f"{kind} {'map' if map_ else 'set'} of {len(k)} enum variants", dups=self.maybe((kind == "scalar" and len(k) >= 8) or (kind == "hash" and len(k) >= 4)))

    def structs(self, n=None, map_=None, kind=None):
        r = self.r
        map_ = r.random() < 0.6 if map_ is None else map_
        kind = kind or r.choice(["hash", "ordered"])
        v, shape = ints(r, n or self.pick_n(), -1000, 1000, False)
        form = self.form()
        local = lambda: "(none as i64) + " if "static" not in form and r.random() < 0.3 else ""
        keys = [(f"pt({x % 5}, {local()}{x})", f"pt({x % 5}, {x})") for x in v]
        q = r.choice(["Pt", "PtRef"])
        self.add(kind, map_, form, "Pt", q, "Pt", keys, True, f"{kind} {'map' if map_ else 'set'} of {len(v)} struct expressions, {shape}", dups=self.maybe(kind == "hash" and len(keys) >= 4))

    def str_exprs(self, n=None, map_=None):
        """Strings with at least one expression: a scan of the expressions' type below four, FzString* above."""
        r = self.r
        map_ = r.random() < 0.6 if map_ is None else map_
        kind = r.choice(["string", "hash", "ordered"])
        v, shape = strings(r, n or self.pick_n())
        if len(v) < 2:
            v = v + ["other one"]

        def src(i, x):
            if i == 1:
                return rs(x)
            if i == 0 or r.random() < 0.5:
                return r.choice([f"({rs(x)})", self.const("&str", rs(x)), f"std::convert::identity({rs(x)})"])
            return rs(x)

        keys = [(src(i, x), rs(x)) for i, x in enumerate(v)]
        small = len(v) < 4
        # the long form with four or more keys doesn't compile: known finding D7
        form = self.form() if small else "short"
        self.add(kind, map_, form, "&'static str", "str", "&'static str", keys, True, f"{kind} {'map' if map_ else 'set'} of {len(v)} string expressions, {shape}", outK=None if small else "Box<str>", dups=self.maybe(not small))

    def empty(self, map_=None):
        r = self.r
        map_ = r.random() < 0.6 if map_ is None else map_
        kind, K, Q = r.choice([("hash", "i32", "i32"), ("ordered", "i32", "i32"), ("scalar", "u8", "u8"), ("string", "&'static str", "str"), ("hash", "Pt", "PtRef")])
        self.add(kind, map_, r.choice(["let", "let mut", "static"]), K, Q, K, [], False, f"{kind} {'map' if map_ else 'set'}, empty")

    def write(self, path):
        with open(path, "w") as f:
            f.write("#[allow(unused_imports)]\nuse fzmon::keys::{Hue, Pt, PtRef, pt};\n")
            f.write("#[allow(dead_code)]\nfn none() -> u64 {\n    0\n}\n#[allow(dead_code)]\nconst fn konst(x: u64) -> u64 {\n    x\n}\n")
            f.write(VIA + "\n".join(self.consts) + "\n")
            f.write("\n".join(self.fns))
            f.write("pub fn run(cx: &mut Ctx) {\n")
            for i in range(self.n):
                f.write(f"    if {i} % cx.shards == cx.shard {{ f{i}(cx); }}\n")
            f.write("}\n")


def standard(seed, path, scale=0, big=False, narrow=False):
    """Every representation the macros select, as a map and as a set, and scale times a random spread."""
    r = random.Random(seed)
    f = Fixture(r, narrow)
    for m in (True, False):
        f.int_literals(9, m, shape="dense")
        f.int_literals(12, m, shape="hole")
        f.int_literals(6, m, shape="random")
        f.int_literals(20, m, shape="stride", dup=True)
        f.int_literals(40, m, shape="random")
        f.str_literals(3, m)
        f.str_literals(8, m, shape="lengths")
        f.str_literals(9, m, shape="lengths-uni")
        f.str_literals(11, m, shape="left-lens", dup=True)
        f.str_literals(11, m, shape="right-lens")
        f.str_literals(12, m, shape="spread")
        f.enums(9, m, "scalar")
        f.structs(3, m, "hash")
        f.structs(9, m, "hash")
        f.structs(2, m, "ordered")
        f.structs(9, m, "ordered")
        f.int_exprs(4, m)
        f.int_exprs(12, m)
        f.str_exprs(3, m)
        f.str_exprs(9, m)
        f.empty(m)
    for _ in range(scale):
        for n in (1, 3, 7, 8, 17):
            f.int_literals(n=n)
        for n in (2, 3, 4, 9, 24):
            f.str_literals(n=n)
        for n in (1, 3, 7, 8, 15):
            f.int_exprs(n=n)
        for n in (2, 8, 20):
            f.enums(n=n)
        for n in (1, 3, 4, 7, 16):
            f.structs(n=n)
        for n in (2, 3, 4, 12):
            f.str_exprs(n=n)
        f.empty(True)
        f.empty(False)
        f.int_literals(dup=True)
        f.str_literals(dup=True)
    if big:
        f.int_literals(n=300)
        f.str_literals(n=300)
        f.str_literals(n=260)
    f.write(path)
    return f


def statics(seed, path, count=40):
    """Statics with literal keys and constant values, and lookups in them before anything else has used them."""
    r = random.Random(seed * 104729 + 20)
    values = [
        ("u64", lambda i: f"{i}u64"),
        ("u64", lambda i: f"konst({i}u64)"),
        ("&'static str", lambda i: f'"v{i}"'),
        ("Option<(u8, f32)>", lambda i: "None" if i % 3 == 0 else f"Some(({i % 256}, {i}.5))"),
        ("String", lambda i: "String::new()"),
        ("&'static [u16]", lambda i: "NUMBERS"),
        ("core::num::NonZeroU8", lambda i: "core::num::NonZeroU8::MIN"),
        ("(u8, bool)", lambda i: f"({i % 256} / 2, 1 < 2 && !konst({str(i % 2 == 0).lower()}))"),
        ("core::sync::atomic::AtomicU32", lambda i: f"core::sync::atomic::AtomicU32::new({i})"),
    ]
    out, fns = [], []
    for i in range(count):
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 20, 40, 127, 128, 256, 300]) if i > 8 else i * 4
        map_ = r.random() < 0.6
        if i % 2:
            ty = r.choice(list(INTS))
            v, shape = ints(r, max(n, 1), *INTS[ty], True) if n else ([], "empty")
            src = [int_src(r, x, ty, ty) for x in v]
            look = [f"&{x}{ty}" for x in v]
            absent = [f"&{x}{ty}" for x in (0, 1, 77, 127) if x not in v]
            kind = r.choice(["hash", "ordered", "scalar"])
        else:
            ty = "&'static str"
            v, shape = strings(r, max(n, 1)) if n else ([], "empty")
            src = [str_src(r, x) for x in v]
            look = [rs(x) for x in v]
            absent = [rs(x) for x in ("not there", "zz zz", "") if x not in v]
            kind = r.choice(["hash", "ordered", "string"])
        if src and r.random() < 0.5:
            src += r.sample(src, min(3, len(src)))
        vt, val = r.choice(values)
        vis = r.choice(["", "pub ", "pub(crate) "])
        body = ", ".join(f"{k}: {val(j)}" for j, k in enumerate(src)) if map_ else ", ".join(src)
        decl = f"T<{ty}, {vt}>" if map_ else f"T<{ty}>"
        has = "contains_key" if map_ else "contains"
        # a list of its own for each case, as borrowed keys of the set would otherwise need the type
        desc = rs(f"static {kind} {'map' if map_ else 'set'} of {len(v)} {ty} literals, {shape}")
        q = "&str" if ty[0] == "&" else f"&{ty}"
        out.append(
            f"#[allow(dead_code, unused_imports, clippy::all)]\nmod s{i} {{\n    use super::*;\n    frozen_collections::fz_{kind}_{'map' if map_ else 'set'}!({vis}static S: {decl}, {{{body}}});\n"
            f"    const THERE: &[{q}] = &[{', '.join(look)}];\n    const ABSENT: &[{q}] = &[{', '.join(absent)}];\n"
            f"    pub fn run(cx: &mut Ctx) {{\n        cx.run(|cx| {{\n            cx.describe({desc}.into());\n            plain::<T, _>(cx, &S);\n"
            f"            let (n, m) = quiet(cx, \"static\", \"the first use\", || (THERE.iter().filter(|k| S.{has}(**k)).count() + S.len(), ABSENT.iter().filter(|k| S.{has}(**k)).count()));\n"
            f"            cx.check(n == 2 * THERE.len() && m == 0, || format!(\"{{n}} of twice {{}} keys found, {{m}} of the absent ones\", THERE.len()));\n        }});\n    }}\n}}\n"
        )
        fns.append(f"    if {i} % cx.shards == cx.shard {{ s{i}::run(cx); }}\n")
    with open(path, "w") as f:
        f.write("\n".join(out) + "pub fn run(cx: &mut Ctx) {\n" + "".join(fns) + "}\n")
    return count


def enums(seed, path, count=40):
    """Enums deriving Scalar, of many sizes and guises, for the position monitor."""
    rng = random.Random(seed * 7919 + 12)
    words = ["Red", "green", "BLUE", "r#type", "r#match", "r#fn", "Ünïcode", "_0", "__", "A1", "Some", "None", "Ok", "Err", "Self_", "u8", "usize", "index", "Scalar", "r#struct", "r#loop", "String", "Option"]
    sizes = [1, 2, 3, 4, 7, 8, 9, 127, 128, 129, 255, 256, 257, 300]
    out, fns = [], []
    for i in range(count):
        n = sizes[i] if i < len(sizes) else rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(100, 400)])
        names = []
        pool = words[:]
        rng.shuffle(pool)
        for j in range(n):
            names.append(pool.pop() if pool and rng.random() < 0.3 else f"V{(j * 7919) % 10007}x{rng.randint(0, 9)}")
        const = i % 7 == 3
        attrs = rng.choice(["", "#[repr(u16)] ", "#[repr(i32)] ", "#[non_exhaustive] ", "/// documented\n"])
        vis = rng.choice(["", "pub ", "pub(crate) ", "pub(super) "])
        body = []
        for v in names:
            if rng.random() < 0.08:
                body.append(f"    #[cfg(any())] Gone{len(body)},")
            if rng.random() < 0.1:
                body.append("    /// a variant")
            if rng.random() < 0.05:
                body.append("    #[allow(dead_code)]")
            body.append(f"    {v},")
        name = f"E{i}" if i % 5 else f"r#enum_{i}"
        g, inst = ("<const N: usize>", "::<3>") if const else ("", "")
        order = "PartialOrd, Ord, Scalar" if i % 2 else "Scalar, PartialOrd, Ord"
        mod = f"m{i}"
        out.append(f"#[allow(non_camel_case_types, dead_code, uncommon_codepoints)]\nmod {mod} {{\n    use frozen_collections::Scalar;\n    {attrs}#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, {order})]\n    pub(in super) enum {name}{g} {{\n" .replace("pub(in super)", vis.strip() or "pub") + "\n".join(body) + f"\n    }}\n    pub fn run(cx: &mut super::Ctx) {{\n        let all = [{', '.join(f'{name}{inst}::{v}' for v in names)}];\n        super::audit_enum(cx, \"{name}\", &all);\n    }}\n}}\n")
        fns.append(f"{mod}::run")
    out.append("pub static ALL: &[fn(&mut Ctx)] = &[" + ", ".join(fns) + "];\n")
    with open(path, "w") as f:
        f.write("\n".join(out))
    return count
