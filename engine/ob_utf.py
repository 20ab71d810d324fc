"""C23 and C24: encodings.

Bytes of the subject, and units of the pattern text, are opaque; lengths are enumerated.  Each bit of what the library computes from
them is compared with what the definition of the encoding computes."""
from . import valg

PRELUDE = '#include "utf.hpp"\n'


def ob(name, impl, ref, **kw):
    kw.setdefault("unroll", 8)
    return valg.Ob(name, impl, ref, raw=True, bounds=bool(kw.get("reads")), **kw)


IT = "ctre::utf8_iterator it{p, p + %d, p - %d}; "


def subject(tier):
    o = []
    top = 6 if tier == "quick" else 9
    for n in range(1, top + 1):
        mk = IT % (n, 0)
        W = "utf8_iterator, %d bytes before the end" % n
        o.append(ob("decode_%d" % n, mk + "return static_cast<uint32_t>(*it);", "const auto c = enc::utf8(p, %d); return c.n ? c.v : 0xFFFDu;" % n, sig="mem", reads=(0, n), where="operator* of " + W))
        for nm, inc in (("next", "++it"), ("postnext", "it++"), ("plus", "it = it + 1u")):
            o.append(ob("%s_%d" % (nm, n), mk + "%s; const auto c = enc::utf8(p, %d); return c.n ? static_cast<uint64_t>(it.ptr - p) : 0;" % (inc, n), "return enc::utf8(p, %d).n;" % n, sig="mem", reads=(0, n), where="%s of %s moves by the length of the sequence" % (inc, W)))
            o.append(ob("%s_in_%d" % (nm, n), mk + "%s; const auto d = it.ptr - p; return d >= 1 && d <= %d;" % (inc, n), "return 1;", sig="mem", reads=(0, n), where="%s of %s moves, and not beyond the end" % (inc, W)))
        o.append(ob("postnext_old_%d" % n, mk + "const auto old = it++; return static_cast<uint64_t>(old.ptr - p) + 16 * (old.end - p) + 256 * (old.begin == p);", "return %d;" % (16 * n + 256), sig="mem", reads=(0, n), where="it++ gives the old position"))
        o.append(ob("kept_%d" % n, mk + "++it; return static_cast<uint64_t>(it.end - p) + 16 * (it.begin == p);", "return %d;" % (n + 16), sig="mem", reads=(0, n), where="++it keeps the bounds"))
    for m in range(1, top + 1):
        for n in (0, 1, 2, 4):
            mk = IT % (n, m)
            W = "utf8_iterator, %d bytes behind the beginning and %d before the end" % (m, n)
            # the sequence that ends here
            pre = "uint64_t want = 0; for (uint64_t k = 1; k <= 4 && k <= %d; ++k) if (enc::utf8(p - k, k).n == k) want = k; " % m
            for nm, dec in (("prev", "--it"), ("postprev", "it--"), ("minus", "it = it - 1u")):
                if nm != "prev" and n != 0: continue
                o.append(ob("%s_%d_%d" % (nm, m, n), mk + pre + "%s; return want ? static_cast<uint64_t>(p - it.ptr) : 0;" % dec, pre + "return want;", sig="mem", reads=(-m, n), where="%s of %s moves by the length of the sequence before" % (dec, W)))
                o.append(ob("%s_in_%d_%d" % (nm, m, n), mk + "%s; const auto d = p - it.ptr; return d >= 1 && d <= %d;" % (dec, m), "return 1;", sig="mem", reads=(-m, n), where="%s of %s moves, and not before the beginning" % (dec, W)))
            if n == 0: o.append(ob("postprev_old_%d" % m, mk + "const auto old = it--; return static_cast<uint64_t>(old.ptr == p) + 16 * (old.end == p) + 256 * (p - old.begin);", "return %d;" % (17 + 256 * m), sig="mem", reads=(-m, 0), where="it-- gives the old position"))
    # comparisons
    for k in range(0, 4):
        mk = "ctre::utf8_iterator it{p + %d, p + 2, p}; const ctre::utf8_iterator other{p + 1, p + 2, p}; const ctre::utf8_iterator::sentinel s{}; const P8 q = p + 1; " % k
        e = "%s" % ("true" if k >= 2 else "false")
        o.append(ob("end_%d" % k, mk + "return (it == s) + 2 * (s == it) + 4 * !(it != s) + 8 * !(s != it);", "return %s ? 15 : 0;" % e, sig="mem", where="comparison with the sentinel"))
        o.append(ob("same_%d" % k, mk + "return (it == other) + 2 * (other == it) + 4 * !(it != other) + 8 * !(other != it) + 16 * (it == q) + 32 * (q == it) + 64 * !(it != q) + 128 * !(q != it);", "return %d;" % (255 if k == 1 else 0), sig="mem", where="comparison of iterators"))
        o.append(ob("pointer_%d" % k, mk + "const P8 r = it; it = q; return (r == p + %d) + 2 * (it.ptr == q) + 4 * (it.end == p + 2) + 8 * (it.begin == p);" % k, "return 15;", sig="mem", where="conversion to and assignment from a pointer"))
    for n in range(0, 4):
        o.append(ob("range_%d" % n, "const ctre::utf8_range r{std::u8string_view(p, %d)}; const auto i = r.begin(); return (i.ptr == p) + 2 * (i.begin == p) + 4 * (i.end == p + %d) + 8 * (i == r.end());" % (n, n), "return %d;" % (7 + 8 * (n == 0)), sig="mem", where="utf8_range"))
    for k in range(0, 4):
        o.append(ob("plus_is_next_%d" % k, (IT % (4, 0)) + "return static_cast<uint64_t>((it + %du).ptr - p);" % k, (IT % (4, 0)) + "for (int i = 0; i < %d; ++i) ++it; return static_cast<uint64_t>(it.ptr - p);" % k, sig="mem", where="it + %d" % k, cond=None) if k else ob("plus_is_next_0", (IT % (4, 0)) + "return static_cast<uint64_t>((it + 0u).ptr - p);", "return 0;", sig="mem"))
        if k < 3:
            start = IT % (0, 3) + ("" if k < 2 else "if ((it - 1u).ptr == it.begin) return 9; ")
            o.append(ob("minus_is_prev_%d" % k, start + "return static_cast<uint64_t>(p - (it - %du).ptr);" % k, start + "for (int i = 0; i < %d; ++i) --it; return static_cast<uint64_t>(p - it.ptr);" % k, sig="mem", where="it - %d" % k))
    # a whole subject, there and back
    for n in range(1, 5 if tier == "quick" else 7):
        ok = "const auto t = enc::text(enc::F8{}, p, %d); if (!t.ok) return 0; " % n
        o.append(ob("walk_%d" % n, ok + "uint64_t k = 0, r = 1; const ctre::utf8_range s{std::u8string_view(p, %d)}; for (const char32_t c : s) { if (k < 8 && c != t.c[k]) r = 0; ++k; } return r && k == t.n;" % n, ok + "return 1;", sig="mem", reads=(0, n), where="for (char32_t c : utf8_range) over %d bytes" % n))
        o.append(ob("back_%d" % n, ok + "auto it = ctre::utf8_range{std::u8string_view(p, %d)}.begin(); it = p + %d; uint64_t k = t.n, r = 1; while (it.ptr != p) { --it; --k; if (k >= 8 || *it != t.c[k]) return 2; } return r && k == 0;" % (n, n), ok + "return 1;", sig="mem", reads=(0, n), where="walking back over %d bytes" % n))
    # patterns on UTF-8 subjects: what is read, where it ends
    pats = ['U"."', 'U".."', 'U"[^a]"', 'U"\\u00e9"', 'U"[\\u20ac-\\u20af]"', 'U".*"', 'U"a*$"', 'U".(?<=.)"', 'U".+?\\\\z"', 'U"\\\\w\\\\b"', 'U"(?<!a)."', 'U"(.)\\\\1"', 'U".*+"', 'U"(?=.)..?"', 'U"(?:a|.)+b"', 'U"(?m)^.$"']
    for i, t in enumerate(pats):
        for n in range(0, 4):
            for m in ("match", "search", "starts_with"):
                if m != "search" and tier == "quick" and i % 3 != n % 3: continue
                o.append(ob("reads_%s_%d_%d" % (m, i, n), "return bool(ctre::%s<%s>(std::u8string_view(p, %d)));" % (m, t, n), None, sig="mem", reads=(0, n), unroll=n + 2, where="ctre::%s<%s> reads only the %d bytes of its subject" % (m, t, n)))
    for n in range(1, 6):
        o.append(ob("dot_%d" % n, "const auto r = ctre::starts_with<\".\">(std::u8string_view(p, %d)); const auto c = enc::utf8(p, %d); return c.n ? (r ? static_cast<uint64_t>(r.end() - p) + 16 * (r.begin() == p) : 7) : 0;" % (n, n), "const auto c = enc::utf8(p, %d); return c.n ? c.n + 16 : 0;" % n, sig="mem", reads=(0, n), where="one character of a subject of %d bytes" % n))
        o.append(ob("char_%d" % n, "return bool(ctre::starts_with<U\"[\\u00e9\\u20ac\\U0001F600a]\">(std::u8string_view(p, %d)));" % n, "const auto c = enc::utf8(p, %d); return c.n && (c.v == 0xe9 || c.v == 0x20ac || c.v == 0x1f600 || c.v == 'a');" % n, sig="mem", reads=(0, n), where="a set on a subject of %d bytes" % n))
        o.append(ob("replacement_%d" % n, "return bool(ctre::starts_with<U\"\\uFFFD\">(std::u8string_view(p, %d)));" % n, "const auto c = enc::utf8(p, %d); return c.n == 0 || c.v == 0xfffd;" % n, sig="mem", reads=(0, n), where="the replacement character on a subject of %d bytes" % n))
    for m in (1, 2, 3, 4):
        o.append(ob("behind_%d" % m, "uint64_t want = 0; for (uint64_t k = 1; k <= %d; ++k) if (enc::utf8(p, k).n == %d) want = 1; if (!want) return 0; const auto r = ctre::search<U\"(?<=[\\u00e9\\u20ac\\U0001F600a])\\\\z\">(std::u8string_view(p, %d)); return r ? 2 + (r.begin() == p + %d) : 1;" % (m, m, m, m),
                    "const auto c = enc::utf8(p, %d); if (c.n != %d) return 0; return c.v == 0xe9 || c.v == 0x20ac || c.v == 0x1f600 || c.v == 'a' ? 3 : 1;" % (m, m), sig="mem", reads=(0, m), unroll=m + 3, where="a lookbehind after a sequence of %d bytes" % m))
    return o


def older(tier):
    import copy
    out = []
    for o in subject(tier):
        if o.name.split("_")[0] in ("end", "same", "pointer", "range", "decode", "next", "prev", "walk", "back"):
            o = copy.copy(o); o.name = "c17_" + o.name; o.where += " (C++17)"
            out.append(o)
    return out


UNITS = {"u8": ("char8_t", "units8", "enc::F8{}"), "u16": ("char16_t", "units16", "enc::F16{}"), "u32": ("char32_t", "units32", "enc::F32{}"), "wide": ("wchar_t", "units32", "enc::F32{}"), "byte": ("char", "units8", "enc::FByte{}"), "char_utf8": ("char", "units8", "enc::F8{}")}


def patterns(kind, tier):
    T, sig, f = UNITS[kind]
    o = []
    top = {"u8": 4, "char_utf8": 4, "u16": 4}.get(kind, 3) + (tier != "quick")
    for n in range(1, top + 1):
        arr = "const %s a[%d] = {%s, 0}; " % (T, n + 1, ", ".join("static_cast<%s>(u%d)" % (T, i) for i in range(n)))
        std = "const std::array<%s, %d> s{%s}; " % (T, n, ", ".join("static_cast<%s>(u%d)" % (T, i) for i in range(n)))
        tail = "const auto t = enc::text(%s, a, %d); " % (f, n)
        want = arr + tail
        for src, mk in (("literal", arr + "const ctll::fixed_string f(a); "), ("array", arr + std + "const ctll::fixed_string f(s); "), ("copy", arr + "const ctll::fixed_string g(a); const ctll::fixed_string f(g); ")):
            W = "fixed_string from %s of %d units (%s)" % ("an array" if src == "array" else "a literal" if src == "literal" else "a copy", n, kind)
            o.append(ob("%s_%s_%d_correct" % (kind, src, n), mk + "return f.correct();", want + "return t.ok;", sig=sig, where=W + ": correct()"))
            o.append(ob("%s_%s_%d_size" % (kind, src, n), mk + tail + "return t.ok ? f.size() * 16 + static_cast<size_t>(f.end() - f.begin()) + 256 * std::u32string_view(f).size() : 0;", want + "return t.ok ? t.n * (16 + 1 + 256) : 0;", sig=sig, where=W + ": size()"))
            for k in range(n):
                o.append(ob("%s_%s_%d_at%d" % (kind, src, n, k), mk + tail + "return t.ok && t.n > %d ? static_cast<uint64_t>(f[%d]) | (f.begin()[%d] == f[%d] ? 0 : 1ull << 40) | (std::u32string_view(f)[%d] == f[%d] ? 0 : 1ull << 41) : 0;" % ((k,) * 6), want + "return t.ok && t.n > %d ? t.c[%d] : 0;" % (k, k), sig=sig, where=W + ": character %d" % k))
    if kind == "u32":
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                if n + m > 4: continue
                a = "const char32_t a[%d] = {%s, 0}; const char32_t b[%d] = {%s, 0}; " % (n + 1, ", ".join("u%d" % i for i in range(n)), m + 1, ", ".join("u%d" % (n + i) for i in range(m)))
                o.append(ob("same_%d_%d" % (n, m), a + "return ctll::fixed_string(a).is_same_as(ctll::fixed_string(b));", a + "return %s;" % (" && ".join("u%d == u%d" % (i, n + i) for i in range(n)) if n == m else "false"), sig=sig, where="is_same_as of %d and %d characters" % (n, m)))
        o.append(ob("empty", "const ctll::fixed_string f(U\"\"); return f.correct() + 2 * f.size() + 4 * (f.begin() == f.end()) + 8 * std::u32string_view(f).empty() + 16 * (u0 ? f[0] == 0 : f[1] == 0);", "return 29;", sig=sig, where="fixed_string<0>"))
        o.append(ob("same_empty", "const char32_t a[2] = {u0, 0}; return ctll::fixed_string(a).is_same_as(ctll::fixed_string(U\"\"));", "return 0;", sig=sig, where="is_same_as the empty text"))
    if kind in ("u8", "u16"):
        for n in (2, 3) if kind == "u8" else (1, 2):
            arr = "const %s a[%d] = {%s, 0}; const auto t = enc::text(%s, a, %d); if (!t.ok) return 0; " % (T, n + 1, ", ".join("u%d" % i for i in range(n)), f, n)
            for m in (1, 2):
                b = "const char32_t b[%d] = {%s, 0}; " % (m + 1, ", ".join(["U'\\u00e9'", "U'a'"][:m]))
                o.append(ob("%s_same_as_u32_%d_%d" % (kind, n, m), arr + b + "return ctll::fixed_string(a).is_same_as(ctll::fixed_string(b)) + 2 * ctll::fixed_string(b).is_same_as(ctll::fixed_string(a));", arr + b + "bool s = t.n == %d; for (uint32_t i = 0; i < %d; ++i) s = s && t.c[i] == b[i]; return s ? 3 : 0;" % (m, m), sig=sig, where="is_same_as between encodings"))
    return o
