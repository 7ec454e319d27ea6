"""Writes the translation units of C14: gen_types.py <seed> <outdir> <parts> <types per part>."""
import random, sys

seed, out, parts, per = int(sys.argv[1]), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
custom = "custom" in sys.argv[5:]  # with many printers of the user (checks/custom)
rnd = random.Random(seed)


class Ty:
    def __init__(self, text, copy=True, ordered=False, hashed=False, plain=True, eq=True):
        self.text, self.copy, self.ordered, self.hashed, self.plain, self.eq = text, copy, ordered, hashed, plain, eq


def leafs():
    l = []
    for t in ("bool", "char", "short", "int", "unsigned", "long", "unsigned long long", "std::uint8_t", "std::int8_t",
              "float", "double", "long double"):
        l.append(Ty(t, ordered=True, hashed=True))
    for t in ("wchar_t", "char8_t", "char16_t", "char32_t"):
        l.append(Ty(t, ordered=True, hashed=True))
    for t in ("std::string", "std::wstring", "std::u8string", "std::u16string", "std::u32string", "std::string_view",
              "std::wstring_view", "std::u8string_view", "std::u16string_view", "std::u32string_view"):
        l.append(Ty(t, ordered=True, hashed=True))
    for t in ("const char*", "char*", "const wchar_t*", "wchar_t*", "const char8_t*", "const char16_t*", "const char32_t*"):
        l.append(Ty(t))
    for t in ("int*", "const int*", "void*", "const void*", "mc::Plain*", "int**", "std::string*", "void(*)()"):
        l.append(Ty(t if "(*)" not in t else "std::add_pointer_t<void()>"))
    for t in ("mc::Custom", "mc::Plain"):
        l.append(Ty(t, ordered=True))
    for t in ("std::nullptr_t", "mc::Color", "pr::Unscoped", "mc::Fmt", "mc::CustomRange", "mc::FmtRange",
              "pr::MyChar2", "std::basic_string<pr::MyChar>", "std::basic_string<pr::MyChar2>",
              "std::basic_string_view<pr::MyChar>", "const pr::MyChar2*", "pr::TraitsString"):
        l.append(Ty(t))
    for t in ("pr::Tuple2", "pr::MyString", "pr::Special", "std::optional<pr::Special>", "std::vector<pr::Special>", "pr::Special*",
              "std::pair<pr::Special, int>", "std::filesystem::path", "std::source_location", "std::vector<bool>",
              "pr::Tree", "pr::MutA", "pr::NoPrintRange", "std::variant<int, std::string>", "std::shared_ptr<int>"):
        l.append(Ty(t, eq=False))
    for t in ("pr::NoCopy", "std::unique_ptr<int>", "std::unique_ptr<pr::Special>"):
        l.append(Ty(t, copy=False, eq=False))
    return l


LEAFS = leafs()
if custom:
    for text in ("short", "unsigned", "bool", "float", "cu::Level", "cu::Both", "std::string_view", "std::u16string", "cu::Wrapped<int>"):
        LEAFS += [Ty(text, ordered=text != "bool")] * 2
    for text in ("cu::Listed", "cu::Keyed", "cu::Textual", "cu::Aggregate", "int*", "const wchar_t*", "const void*", "std::nullptr_t",
                 "std::vector<bool>", "std::list<short>", "std::set<int>", "std::optional<long>", "std::filesystem::path",
                 "std::source_location", "std::pair<int, int>", "std::variant<int, std::string>", "std::array<int, 2>",
                 "std::add_pointer_t<void()>", "std::tuple<>", "std::optional<bool>", "std::optional<short>", "std::optional<cu::Level>",
                 "std::optional<float>", "std::optional<unsigned>", "cu::Wrapped<std::optional<bool>>", "std::u32string", "mc::Color"):
        LEAFS += [Ty(text, eq=False)] * 2
    LEAFS += [Ty("std::unique_ptr<int>", copy=False, eq=False)] * 2


def leaf():
    return rnd.choice(LEAFS)


def key(hashed=False):
    while True:
        t = leaf()
        if (t.hashed if hashed else t.ordered) and "double" not in t.text and "float" not in t.text:
            return t


def gen(depth):
    if depth == 0 or rnd.random() < 0.25:
        return leaf()
    k = rnd.randrange(22)
    sub = lambda: gen(depth - 1)
    def wrap(fmt, n=1, **kw):
        ts = [sub() for _ in range(n)]
        return Ty(fmt.format(*[t.text for t in ts]), copy=all(t.copy for t in ts), eq=all(t.eq for t in ts), **kw)
    if k < 3: return wrap("std::vector<{}>")
    if k == 3: return wrap("std::deque<{}>")
    if k == 4: return wrap("std::list<{}>")
    if k == 5: return wrap("std::forward_list<{}>")
    if k == 6: return wrap("std::array<{}, %d>" % rnd.randrange(0, 4))
    if k in (7, 8): return wrap("std::optional<{}>")
    if k in (9, 10): return wrap("std::pair<{}, {}>", 2)
    if k in (11, 12):
        n = rnd.randrange(0, 5)
        return wrap("std::tuple<" + ", ".join("{}" for _ in range(n)) + ">", n)
    if k == 13: return Ty(f"std::set<{key().text}>")
    if k == 14:
        v = sub()
        return Ty(f"std::{rnd.choice(['map', 'multimap'])}<{key().text}, {v.text}>", copy=v.copy, eq=False)
    if k == 15:
        v = sub()
        return Ty(f"std::unordered_map<{key(True).text}, {v.text}>", copy=v.copy, eq=False)
    if k == 16:
        t = sub()
        return Ty(f"std::span<{rnd.choice(['', 'const '])}{t.text}>", eq=False) if t.text != "std::vector<bool>" or True else t
    if k == 17: return wrap("cu::Wrapped<{}>" if custom and rnd.random() < .5 else "pr::Box<{}>")
    if k == 18: return wrap("pr::UserRange<{}>").noeq()
    if k == 19: return wrap("pr::TupleM<{}>").noeq()
    if k == 20:
        t = sub()
        v = rnd.choice(["TakeView", "RevView", "SubRange"] + (["TransView"] if t.copy else []))
        return Ty(f"pr::{v}<{t.text}>", eq=False)
    t = sub()
    return Ty(f"std::{rnd.choice(['unique_ptr', 'shared_ptr'])}<{t.text}>", copy=False, eq=False)


def noeq(self):
    self.eq = False
    return self


Ty.noeq = noeq


def top():
    r = rnd.random()
    if r < 0.12:
        c = rnd.choice(["char", "wchar_t", "char8_t", "char16_t", "char32_t"])
        n = rnd.randrange(1, 6)
        return Ty(rnd.choice([f"{c}[{n}]", f"{c}[2][{n}]"]), copy=False, eq=False)
    if r < 0.2:
        t = gen(2)
        return Ty(f"pr::CArr2<{t.text}>", copy=False, eq=False)
    return gen(rnd.choice([1, 2, 3, 3]))


pool = list(LEAFS)
rnd.shuffle(pool)
for part in range(parts):
    mine = []
    # every leaf appears once per run, everything else is random
    while pool and len(mine) < per // 2 and len(pool) * 1.0 > (parts - part - 1) * (per // 2) * 0:
        mine.append(pool.pop())
    while len(mine) < per:
        mine.append(top())
    with open(f"{out}/types_{part}.cpp", "w") as f:
        f.write('#include "cprint.hpp"\n' if custom else '#include "print.hpp"\n')
        seen = set()
        for i, t in enumerate(mine):
            name = t.text.replace("pr::", "").replace("mc::", "").replace("std::", "").replace("cu::", "")
            if name in seen:
                continue
            seen.add(name)
            b = lambda x: "true" if x else "false"
            f.write(f"static mc::Add a{i}{{\"{name}\", [](mc::Src& s, mc::Case& c) {{ pr::typeCase<{t.text}, {b(t.copy)}, {b(t.eq)}>(s, c); }}}};\n")
