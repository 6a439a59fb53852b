// C15: malformed, truncated, oversized and inconsistent headers and bodies, in heap blocks of exactly the size given (AddressSanitizer).
// Independent reference parsers say what a body means: a value for every field, nothing (the status must not be SUCCESS), or "unspecified"
// (only safety is asked for).
#include "codec.hpp"
#include <set>
#include <sys/resource.h>
VT_MAIN()
using namespace cx;

enum class R { Ok, OkOrBad, Any, Bad };
static R Worse(R a, R b) { return std::max(a, b); }

static Val Default(const FieldM& f)
{
    Val v;
    if (f.kind == K::Simple || f.kind == K::Enum) { v.e = {0}; }
    if (f.kind == K::Fixed) { v.e.assign(f.arrLen, 0); }
    return v;
}
static void Defaults(const std::vector<FieldM>& fs, Body& b) { for (size_t i = b.size(); i < fs.size(); ++i) { b.push_back(Default(fs[i])); } }

// ---------------------------------------------------------------- binary reference
struct BinIn { const std::string& s; size_t pos, end; };
static bool Left(const BinIn& i, size_t n) { return i.pos <= i.end && n <= i.end - i.pos; }
static uint64_t Rd(const std::string& s, size_t p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) { v |= static_cast<uint64_t>(static_cast<uint8_t>(s[p + i])) << (8 * i); } return v; }
static R RefBinary(const std::vector<FieldM>& fs, BinIn& in, Body& b)
{
    const size_t start = in.pos;
    auto align = [&](size_t len) { size_t a = std::min<size_t>(4, len); while (a && (in.pos - start) % a) { ++in.pos; } };
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const auto& f = fs[i];
        align(f.size);
        Val v;
        size_t n = 0;
        auto count = [&]() {
            if (!f.lenRef.empty()) { for (size_t k = 0; k < i; ++k) { if (fs[k].name == f.lenRef) { n = b[k].e[0]; } } return in.pos <= in.end; }
            align(f.lenSize);
            if (!Left(in, f.lenSize)) { return false; }
            n = Rd(in.s, in.pos, f.lenSize);
            in.pos += f.lenSize;
            return true;
        };
        auto elems = [&](size_t k) {
            if (in.pos > in.end || k > (in.end - in.pos) / f.size) { return false; }
            for (size_t q = 0; q < k; ++q, in.pos += f.size) { v.e.push_back(Rd(in.s, in.pos, f.size)); }
            return true;
        };
        switch (f.kind)
        {
        case K::Simple: case K::Enum: if (!elems(1)) { return R::Bad; } break;
        case K::Fixed: if (!elems(f.arrLen)) { return R::Bad; } break;
        case K::Var: if (!count() || !elems(n)) { return R::Bad; } break;
        case K::Str: {
            if (!Left(in, 1)) { return R::Bad; }
            size_t z = in.s.find('\0', in.pos);
            if (z == std::string::npos || z >= in.end) { return R::Bad; }
            v.s = in.s.substr(in.pos, z - in.pos);
            in.pos = z + 1;
            align(4);
            break;
        }
        case K::Arr: {
            if (!count() || in.pos > in.end || n > in.end - in.pos) { return R::Bad; }
            for (size_t k = 0; k < n; ++k)
            {
                bool var = m::HasVar(f.sub);
                if (var) { align(f.size); }
                Body rb;
                R r = RefBinary(f.sub, in, rb);
                if (r != R::Ok) { return r; }
                // a fixed-size record may not be cut
                if (!var && rb.size() != f.sub.size()) { return R::Bad; }
                Defaults(f.sub, rb);
                v.recs.push_back(rb);
            }
            break;
        }
        }
        b.push_back(v);
        if (!Left(in, 1)) { break; } // ends early: the remaining fields are at their default
    }
    return R::Ok;
}

// ---------------------------------------------------------------- text reference
static bool AllIn(const std::string& s, const char* set) { return !s.empty() && s.find_first_not_of(set) == std::string::npos; }
static R RefInt(const std::string& t, const FieldM& f, uint64_t& v)
{
    bool neg = t[0] == '-';
    std::string d = t.substr(neg ? 1 : 0);
    if (t[0] == '+' || t.find(' ') != std::string::npos) { return R::Any; }
    if (!AllIn(d, "0123456789")) { return R::Bad; }
    while (d.size() > 1 && d[0] == '0') { d.erase(0, 1); }
    if (d.size() > 20) { return R::Bad; }
    unsigned __int128 x = 0;
    for (char c : d) { x = x * 10 + static_cast<unsigned>(c - '0'); }
    unsigned bits = 8U * f.size;
    if (m::TSigned(f.t))
    {
        unsigned __int128 lim = static_cast<unsigned __int128>(1) << (bits - 1);
        if (x > lim || (!neg && x == lim)) { return R::Bad; }
        v = static_cast<uint64_t>(x);
        if (neg) { v = ~v + 1; }
        if (f.size < 8) { v &= (1ULL << bits) - 1; }
        return R::Ok;
    }
    if (neg) { return x == 0 ? R::Any : R::Bad; }
    if (x >> bits) { return R::Bad; }
    v = static_cast<uint64_t>(x);
    return R::Ok;
}
static R RefFloat(const std::string& t, const FieldM& f, uint64_t& v)
{
    if (t.find_first_of("0123456789") == std::string::npos) { return t.find_first_of("nNiI") != std::string::npos ? R::Any : R::Bad; }
    size_t i = t[0] == '-' ? 1 : 0;
    auto digits = [&] { size_t k = i; while (i < t.size() && isdigit(static_cast<unsigned char>(t[i]))) { ++i; } return i > k; };
    if (t[0] == '+' || t.find(' ') != std::string::npos) { return R::Any; }
    bool ok = digits();
    if (ok && i < t.size() && t[i] == '.') { ++i; ok = digits(); }
    if (ok && i < t.size() && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < t.size() && (t[i] == '-' || t[i] == '+')) { ++i; } ok = digits(); }
    if (!ok || i != t.size())
    {
        static const std::string numeric = "0123456789.eE+-";
        for (char c : t) { if (numeric.find(c) == std::string::npos && !strchr("xXpPaAbBcCdDfFnNiI", c)) { return R::Bad; } }
        return R::Any;
    }
    if (f.t == T::FLOAT)
    {
        float x = strtof(t.c_str(), nullptr);
        if (!std::isfinite(x) || (x != 0 && std::fabs(x) < 1.2e-38F) || (x == 0 && t.find_first_of("123456789") < t.find_first_of("eE"))) { return R::Any; }
        uint32_t u;
        memcpy(&u, &x, 4);
        v = u;
    }
    else
    {
        double x = strtod(t.c_str(), nullptr);
        if (!std::isfinite(x) || (x != 0 && std::fabs(x) < 2.3e-308) || (x == 0 && t.find_first_of("123456789") < t.find_first_of("eE"))) { return R::Any; }
        memcpy(&v, &x, 8);
    }
    return R::Ok;
}
static R RefElem(const Ctx& c, const std::string& t, const FieldM& f, uint64_t& v)
{
    if (f.kind == K::Enum)
    {
        for (auto& [x, n] : c.db.enums[f.enumIdx].v) { if (n == t) { v = f.size < 8 ? x & ((1ULL << (8 * f.size)) - 1) : x; return R::Ok; } }
        return R::Any;
    }
    const auto& a = f.alpha;
    if (f.t == T::FLOAT || f.t == T::DOUBLE) { return RefFloat(t, f, v); }
    if (f.t == T::BOOL) { v = t == "TRUE"; return t == "TRUE" || t == "FALSE" ? R::Ok : R::Bad; }
    if (a == "c") { v = static_cast<uint8_t>(t[0]); return t.size() == 1 ? R::Ok : R::Any; }
    if (a == "XB" || a == "x" || a == "X" || a == "lx" || a == "llx")
    {
        if (t.find_first_of("xX +-") != std::string::npos) { return R::Any; }
        if (!AllIn(t, "0123456789abcdefABCDEF")) { return R::Bad; }
        std::string d = t;
        while (d.size() > 1 && d[0] == '0') { d.erase(0, 1); }
        if (d.size() > 2U * f.size) { return R::Bad; }
        v = strtoull(d.c_str(), nullptr, 16);
        return R::Ok;
    }
    if (a == "T")
    {
        size_t dot = t.find('.');
        if (t.find_first_of("0123456789") == std::string::npos) { return t.find_first_of("nNiI") != std::string::npos ? R::Any : R::Bad; }
        if (dot == std::string::npos || dot == 0 || dot > 7 || t.size() != dot + 4 || !AllIn(t.substr(0, dot), "0123456789") || !AllIn(t.substr(dot + 1), "0123456789"))
        {
            for (char ch : t) { if (!strchr("0123456789.eE+- xX", ch)) { return R::Bad; } }
            return R::Any;
        }
        uint64_t ms = strtoull(t.substr(0, dot).c_str(), nullptr, 10) * 1000 + strtoull(t.substr(dot + 1).c_str(), nullptr, 10);
        if (ms > 0xFFFFFFFFULL) { return R::Bad; }
        v = ms;
        return R::Ok;
    }
    if (a == "m")
    {
        for (uint32_t x : MsgIdValues(c.db)) { if (c.nm(x) == t) { v = x; return R::Ok; } }
        return R::Any;
    }
    if (a == "id")
    {
        size_t i = t.find_first_not_of("0123456789");
        std::string n = t.substr(0, i), fr = i == std::string::npos ? "" : t.substr(i);
        if (n.empty()) { return t[0] == ' ' || t[0] == '+' || t[0] == '-' ? R::Any : R::Bad; }
        if (n.size() > 1 && n[0] == '0') { return R::Any; }
        if (n.size() > 5 || strtoul(n.c_str(), nullptr, 10) > 65535) { return R::Bad; }
        v = strtoul(n.c_str(), nullptr, 10);
        if (fr.empty()) { return R::Ok; }
        if ((fr[0] != '+' && fr[0] != '-') || !AllIn(fr.substr(1), "0123456789")) { return fr[0] == ' ' || fr.size() == 1 || fr[1] == '+' || fr[1] == '-' || fr.back() == ' ' ? R::Any : R::Bad; }
        if (fr.size() > 6) { return R::Any; }
        long x = strtol(fr.c_str(), nullptr, 10);
        if (x < -32768 || x > 32767) { return R::Bad; }
        v |= static_cast<uint64_t>(static_cast<uint16_t>(x)) << 16;
        return R::Ok;
    }
    return RefInt(t, f, v);
}
struct TxtIn
{
    const std::string& s;
    size_t pos = 0;
    bool abb = false;
    bool end = false; // the '*' that ends the message was consumed
    const char* delims() const { return abb ? " \r" : ",*"; }
    std::string Token(const char* d) const { size_t e = s.find_first_of(d, pos); return s.substr(pos, e == std::string::npos ? std::string::npos : e - pos); }
    bool Consume()
    {
        if (pos >= s.size()) { return true; }
        if (!strchr(delims(), s[pos])) { return false; }
        end = s[pos] == '*';
        ++pos;
        return true;
    }
};
static R RefText(const Ctx& c, const std::vector<FieldM>& fs, TxtIn& in, Body& b, bool nested)
{
    R r = R::Ok;
    auto note = [&](R x) { r = Worse(r, x); return x != R::Bad; };
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const auto& f = fs[i];
        if (in.abb) { while (in.pos < in.s.size() && strchr("< \r\n", in.s[in.pos])) { ++in.pos; } }
        if (in.pos >= in.s.size()) { return R::Bad; }
        std::string t = in.Token(in.delims());
        if (t.empty()) { return R::Bad; }
        Val v;
        bool delim = true;
        auto one = [&] {
            uint64_t x = 0;
            if (in.abb && t.find('\n') != std::string::npos) { note(R::Any); }
            if (!note(RefElem(c, t, f, x))) { return false; }
            v.e.push_back(x);
            in.pos += t.size();
            return true;
        };
        auto count = [&](uint32_t& n) {
            if (!AllIn(t, "0123456789")) { return t[0] == '+' || t[0] == ' ' ? note(R::Any) && false : false; }
            std::string d = t;
            while (d.size() > 1 && d[0] == '0') { d.erase(0, 1); }
            if (d.size() > 9) { return false; }
            n = static_cast<uint32_t>(strtoul(d.c_str(), nullptr, 10));
            if (n > f.arrLen) { return false; }
            in.pos += t.size();
            in.Consume();
            return !(in.end && n);
        };
        auto ch = [&](uint64_t& x) {
            if (in.pos >= in.s.size()) { return false; }
            char q = in.s[in.pos];
            if (q != '\\') { x = static_cast<uint8_t>(q); ++in.pos; return true; }
            if (in.s.compare(in.pos, 2, "\\\\") == 0) { x = '\\'; in.pos += 2; return true; }
            if (in.s.compare(in.pos, 2, "\\x") == 0)
            {
                std::string h = in.s.substr(in.pos + 2, 2);
                if (h.size() != 2 || !AllIn(h, "0123456789abcdefABCDEF")) { return false; }
                x = strtoul(h.c_str(), nullptr, 16);
                in.pos += 4;
                return true;
            }
            note(R::Any); // another character after the backslash
            x = '\\';
            ++in.pos;
            return true;
        };
        switch (f.kind)
        {
        case K::Simple: case K::Enum: if (!one()) { return R::Bad; } break;
        case K::Str:
            if (t[0] == '"')
            {
                size_t e = in.s.find('"', in.pos + 1);
                if (e == std::string::npos) { return R::Bad; }
                v.s = in.s.substr(in.pos + 1, e - in.pos - 1);
                in.pos = e + 1;
                if (in.pos < in.s.size() && !strchr(in.delims(), in.s[in.pos])) { note(R::Any); in.pos += in.Token(in.delims()).size(); }
            }
            else { v.s = t; in.pos += t.size(); }
            if (v.s.size() > f.arrLen) { note(R::Any); }
            break;
        case K::Fixed: case K::Var: {
            uint32_t n = f.arrLen;
            if (f.kind == K::Var && !count(n)) { return R::Bad; }
            if (f.alpha == "Z")
            {
                for (uint32_t k = 0; k < n; ++k)
                {
                    std::string h = in.s.substr(in.pos, 2);
                    if (h.size() != 2 || !AllIn(h, "0123456789abcdefABCDEF")) { return R::Bad; }
                    v.e.push_back(strtoul(h.c_str(), nullptr, 16));
                    in.pos += 2;
                }
            }
            else if (f.IsString())
            {
                v.e.assign(n, 0);
                if (!in.end)
                {
                    if (in.pos >= in.s.size() || in.s[in.pos] != '"') { return R::Bad; }
                    ++in.pos;
                    for (uint32_t k = 0; k < n && in.pos < in.s.size() && in.s[in.pos] != '"'; ++k) { if (!ch(v.e[k])) { return R::Bad; } }
                    if (in.pos >= in.s.size() || in.s[in.pos] != '"') { return R::Bad; }
                    ++in.pos;
                }
            }
            else if (!f.IsCsv()) { v.e.resize(n); for (auto& x : v.e) { if (!ch(x)) { return R::Bad; } } }
            else
            {
                for (uint32_t k = 0; k < n; ++k)
                {
                    if (k && (!in.Consume() || in.end)) { return R::Bad; }
                    t = in.Token(in.delims());
                    if (t.empty() || !one()) { return R::Bad; }
                }
            }
            delim = !(in.end || (f.IsCsv() && n == 0));
            break;
        }
        case K::Arr: {
            uint32_t n = 0;
            if (!count(n)) { return R::Bad; }
            delim = false;
            for (uint32_t k = 0; k < n; ++k)
            {
                if (in.end) { return R::Bad; }
                Body rb;
                if (!note(RefText(c, f.sub, in, rb, true))) { return R::Bad; }
                v.recs.push_back(rb);
            }
            break;
        }
        }
        b.push_back(v);
        if (delim && !in.Consume()) { return R::Bad; }
        if (in.end && i + 1 != fs.size())
        {
            if (nested) { return R::Bad; }
            Defaults(fs, b);
        break;
        }
    }
    // the end of the message is missing
    if (!nested && !in.abb && !in.end && in.pos >= in.s.size()) { r = Worse(r, R::OkOrBad); }
    return r;
}

// ---------------------------------------------------------------- JSON reference
static R RefJsonInt(const nlohmann::json& j, const FieldM& f, uint64_t& v)
{
    if (!j.is_number()) { return R::Bad; }
    if (!j.is_number_integer()) { return R::Any; } // a number with a fraction
    if (m::TSigned(f.t))
    {
        if (j.is_number_unsigned() && j.get<uint64_t>() > static_cast<uint64_t>(INT64_MAX)) { return R::Bad; }
        int64_t x = j.get<int64_t>();
        if (x != m::SExt(static_cast<uint64_t>(x), f.size)) { return f.size == 1 && x >= 0 && x < 256 ? R::Any : R::Bad; }
        v = static_cast<uint64_t>(x);
        if (f.size < 8) { v &= (1ULL << (8 * f.size)) - 1; }
        return R::Ok;
    }
    if (!j.is_number_unsigned()) { return f.size == 1 && j.get<int64_t>() >= -128 ? R::Any : R::Bad; }
    v = j.get<uint64_t>();
    if (f.size < 8 && v >> (8 * f.size)) { return R::Bad; }
    return R::Ok;
}
static R RefJsonElem(const Ctx& c, const nlohmann::json& j, const FieldM& f, uint64_t& v)
{
    const auto& a = f.alpha;
    if (f.kind == K::Enum || a == "m" || a == "id" || a == "c")
    {
        if (!j.is_string()) { return a == "c" && j.is_number() ? R::Any : R::Bad; }
        std::string s = j.get<std::string>();
        if (s.empty() || s.find('\0') != std::string::npos) { return R::Any; }
        if (f.kind == K::Enum) { return RefElem(c, s, f, v); }
        return RefElem(c, s, f, v);
    }
    if (f.t == T::FLOAT || f.t == T::DOUBLE)
    {
        if (j.is_null() || j.is_string()) { return R::Any; }
        if (!j.is_number()) { return R::Bad; }
        double x = j.get<double>();
        if (f.t == T::FLOAT)
        {
            if (std::fabs(x) > 3.4e38) { return R::Any; }
            float y = static_cast<float>(x);
            uint32_t u;
            memcpy(&u, &y, 4);
            v = u;
        }
        else { memcpy(&v, &x, 8); }
        return R::Ok;
    }
    if (f.t == T::BOOL) { v = j.is_boolean() && j.get<bool>(); return j.is_boolean() ? R::Ok : R::Bad; }
    if (a == "T")
    {
        if (!j.is_number()) { return R::Bad; }
        double x = j.get<double>() * 1000;
        if (!(x > -0.4 && x < 4294967295.4)) { return R::Bad; }
        v = static_cast<uint64_t>(std::llround(x));
        return std::fabs(x - std::round(x)) < 0.4 ? R::Ok : R::Any;
    }
    return RefJsonInt(j, f, v);
}
static R RefJson(const Ctx& c, const std::vector<FieldM>& fs, const nlohmann::json& j, Body& b)
{
    if (!j.is_object()) { return R::Bad; }
    R r = R::Ok;
    for (auto& f : fs)
    {
        b.push_back(Default(f));
        Val& v = b.back();
        if (!j.contains(f.name)) { continue; }
        const auto& x = j[f.name];
        switch (f.kind)
        {
        case K::Simple: case K::Enum: r = Worse(r, RefJsonElem(c, x, f, v.e[0])); break;
        case K::Str:
            if (!x.is_string()) { return R::Bad; }
            v.s = x.get<std::string>();
            if (v.s.find('\0') != std::string::npos) { r = Worse(r, R::Any); }
            break;
        case K::Fixed: case K::Var:
            if (f.IsString())
            {
                if (!x.is_string()) { return R::Bad; }
                std::string s = x.get<std::string>();
                if (f.kind == K::Fixed && s.size() > f.arrLen) { return R::Bad; }
                v.e.assign(f.kind == K::Fixed ? f.arrLen : s.size(), 0);
                for (size_t k = 0; k < s.size(); ++k) { v.e[k] = static_cast<uint8_t>(s[k]); }
                break;
            }
            if (!x.is_array() || (f.kind == K::Fixed && x.size() > f.arrLen)) { return R::Bad; }
            v.e.assign(f.kind == K::Fixed ? f.arrLen : x.size(), 0);
            for (size_t k = 0; k < x.size(); ++k) { r = Worse(r, RefJsonElem(c, x[k], f, v.e[k])); }
            break;
        case K::Arr:
            if (!x.is_array()) { return R::Bad; }
            for (auto& e : x)
            {
                v.recs.emplace_back();
                r = Worse(r, RefJson(c, f.sub, e, v.recs.back()));
            }
            break;
        }
    }
    return r;
}
//! Whether there are digits of an integer beyond 64 bits.
static bool HasBigInteger(const std::string& s)
{
    for (size_t i = 0; i < s.size();)
    {
        size_t e = i;
        while (e < s.size() && isdigit(static_cast<unsigned char>(s[e]))) { ++e; }
        std::string d = s.substr(i, e - i), lim = i && s[i - 1] == '-' ? "9223372036854775808" : "18446744073709551615";
        if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) { return true; }
        i = e + 1;
    }
    return false;
}
//! Parses strictly; dup: a key occurs twice in an object.
static bool ParseJson(const std::string& s, nlohmann::json& j, bool& dup)
{
    std::vector<std::set<std::string>> st;
    dup = false;
    try
    {
        j = nlohmann::json::parse(s, [&](int, nlohmann::json::parse_event_t ev, nlohmann::json& p) {
            using E = nlohmann::json::parse_event_t;
            if (ev == E::object_start) { st.emplace_back(); }
            else if (ev == E::object_end) { st.pop_back(); }
            else if (ev == E::key) { dup |= !st.back().insert(p.get<std::string>()).second; }
            return true;
        });
    }
    catch (const std::exception&) { return false; }
    return true;
}

// ---------------------------------------------------------------- hostile changes
static const char* kTokens[] = {"", "0", "1", "-1", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "-9223372036854775809", "255", "256", "65536", "abc", "1a", "0x10", "1e5", "1e999", "-1e-999",
                                "nan", "inf", "TRUE", "FALSE", "true", "UNKNOWN", "\"", "\"\"", "\"a,b\"", "\\", "\\x", "\\x4", "\\x41", "+1", " 1", "1 ", "--1", "1.5", ".5", "5.", "ffffffff", "fffffffff", "GG", "1+", "1-70000", "12+3", "70000", "999999999", "0000000001",
                                "%s%n", "\xff\xfe", "1.5.2", "1e", "e5", "-", "4294967.296", "4294967.295", "-0.001"};
static std::string HostileToken(Rng& r)
{
    if (r.Chance(0.85)) { return kTokens[r.Below(std::size(kTokens))]; }
    std::string s;
    for (uint64_t n = r.Below(40); n; --n) { s += static_cast<char>(r.Next()); }
    return s;
}
static std::string MutateBytes(Rng& r, std::string s)
{
    for (uint64_t n = 1 + r.Below(3); n && !s.empty(); --n)
    {
        size_t p = r.Below(s.size());
        switch (r.Below(6))
        {
        case 0: s[p] = static_cast<char>(r.Next()); break;
        case 1: s[p] = static_cast<char>(s[p] ^ (1 << r.Below(8))); break;
        case 2: s.erase(p, 1 + r.Below(4)); break;
        case 3: s.insert(p, 1 + r.Below(4), static_cast<char>(r.PickOf<int>({0, ',', '*', '"', '0', '9', '\r', '\n', ' ', '<', 255, 127, '\\', ';'}))); break;
        case 4: s.resize(p); break;
        default: { size_t q = r.Below(s.size()); size_t k = 1 + r.Below(8); s.insert(p, s.substr(q, k)); break; }
        }
    }
    return s;
}
static std::string MutateTokens(Rng& r, const std::string& s, const char* delims)
{
    std::vector<std::pair<size_t, size_t>> tok; // start, length
    size_t p = 0;
    while (p <= s.size())
    {
        size_t e = s.find_first_of(delims, p);
        if (e == std::string::npos) { e = s.size(); }
        tok.emplace_back(p, e - p);
        p = e + 1;
    }
    std::string o = s;
    auto [a, l] = tok[r.Below(tok.size())];
    switch (r.Below(5))
    {
    case 0: case 1: o.replace(a, l, HostileToken(r)); break;
    case 2: o.erase(a, l + 1); break;                              // a field missing
    case 3: o.insert(a, HostileToken(r) + delims[0]); break;      // a field too many
    default:                                                      // a number that is another
        if (AllIn(s.substr(a, l), "0123456789")) { o.replace(a, l, std::to_string(r.Chance(0.5) ? strtoull(s.substr(a, l).c_str(), nullptr, 10) + 1 : r.Below(12))); }
        else { o.replace(a, l, s.substr(tok[0].first, tok[0].second)); }
    }
    return o;
}

// ---------------------------------------------------------------- after SUCCESS
static size_t PeakKb() { rusage u{}; getrusage(RUSAGE_SELF, &u); return static_cast<size_t>(u.ru_maxrss); }

//! Every field is readable, and the body can be encoded to every format.
static std::string Usable(oem::Encoder& enc, const CompositeField& cf, const Hdr& h, size_t& fields)
{
    try
    {
        for (const auto& [d, val] : cf) { fields += 1 + VarSize(val) * 0; (void)d; }
        for (auto [hf, ef] : {std::pair{HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY}, {HEADER_FORMAT::ASCII, ENCODE_FORMAT::ASCII}, {HEADER_FORMAT::ABB_ASCII, ENCODE_FORMAT::ABBREV_ASCII}, {HEADER_FORMAT::JSON, ENCODE_FORMAT::JSON}, {HEADER_FORMAT::BINARY, ENCODE_FORMAT::FLATTENED_BINARY}})
        {
            Enc e = Encode(enc, ToInter(h), cf, hf, ef, 40000);
            if (!e.err.empty()) { return "encoding: " + e.err; }
            if (e.st != STATUS::SUCCESS && e.st != STATUS::BUFFER_FULL && !(e.st == STATUS::FAILURE && (ef == ENCODE_FORMAT::BINARY || ef == ENCODE_FORMAT::FLATTENED_BINARY))) { return "encoding returned " + std::to_string(static_cast<int>(e.st)) + " for format " + std::to_string(static_cast<int>(ef)); }
        }
    }
    catch (const std::exception& e) { return std::string("exception ") + e.what(); }
    return "";
}

struct Judge
{
    Ctx& c;
    oem::MessageDecoder& dec;
    oem::Encoder& enc;
    const m::MsgM& mm;
    const m::DefM& def;
    const FieldInfo& fi;
    CompositeField& got;
    void operator()(const char* what, const std::string& body, size_t extraNul, HEADER_FORMAT f, const Hdr& h, R want, const Body& b, uint32_t uiLength, uint32_t headerLength)
    {
        size_t n = body.size() + extraNul;
        std::unique_ptr<unsigned char[]> buf(new unsigned char[n ? n : 1]);
        memset(buf.get(), 0, n);
        memcpy(buf.get(), body.data(), body.size());
        oem::MetaDataStruct md;
        FillMeta(md, h, mm.name, f, body.size());
        md.uiLength = uiLength;
        md.uiHeaderLength = headerLength;
        auto ctx = [&] { return std::string(" ") + what + " format " + std::to_string(static_cast<int>(f)) + " body " + (f == HEADER_FORMAT::BINARY ? vt::Hex(body) : "\"" + vt::Esc(body, 3000) + "\"") + " def " + Describe(mm, c.db); };
        STATUS st{};
        try { st = dec.Decode(n ? buf.get() : buf.get() + 1, got, md); }
        catch (const std::exception& e) { VT_CHECK(false, "exception", "decode threw " << e.what() << ctx()); }
        catch (...) { VT_CHECK(false, "exception", "decode threw" << ctx()); }
        vt::Eval();
        vt::Distinct(vt::HashBytes(buf.get(), n) ^ static_cast<uint64_t>(f));
        static const char* rn[] = {"ok", "ok_or_bad", "any", "bad"};
        vt::Count(std::string(what) + "." + rn[static_cast<int>(want)]);
        if (want == R::Bad) { VT_CHECK(st != STATUS::SUCCESS, "accepted", "SUCCESS for a body the definition does not account for" << ctx()); }
        if (want == R::Ok) { VT_CHECK(st == STATUS::SUCCESS, "rejected", "status " << static_cast<int>(st) << ctx()); }
        if (st != STATUS::SUCCESS) { return; }
        if (want == R::Ok || want == R::OkOrBad)
        {
            std::string d = Compare(got, fi, def.f, b, ExactEq);
            VT_CHECK(d.empty(), "value", d << ctx());
        }
        size_t fields = 0;
        std::string d = Usable(enc, got, h, fields);
        VT_CHECK(d.empty(), "unusable", d << ctx());
        vt::Count("usable");
    }
};

struct Base
{
    std::unique_ptr<Ctx> c;
    std::unique_ptr<oem::MessageDecoder> dec;
    std::unique_ptr<oem::Encoder> enc;
    m::ValOpt vo;
    CompositeField got;
    explicit Base(Rng& rng, m::GenOpt o, bool json = false)
    {
        c = MakeCtx(rng, o, 2);
        dec = std::make_unique<oem::MessageDecoder>(c->p);
        enc = std::make_unique<oem::Encoder>(c->p);
        vo.text = true;
        vo.special = false;
        vo.knownEnum = true;
        vo.canonBool = true;
        vo.msgIds = MsgIdValues(c->db);
        vo.ascii = json;
    }
    template <typename F> void Each(Rng& rng, F&& fn)
    {
        for (auto& mm : c->db.msgs)
        {
            for (auto& def : mm.defs)
            {
                const auto& fi = *c->p->GetMsgDef(static_cast<int32_t>(mm.id))->fieldInfo.at(def.crc);
                Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), def.crc);
                vo.full = rng.Chance(0.3);
                Body b = m::GenBody(rng, def.f, c->db, vo);
                Judge j{*c, *dec, *enc, mm, def, fi, got};
                fn(mm, def, h, b, j);
            }
        }
    }
};

VT_SUITE(binary)
{
    m::GenOpt o;
    o.lenRef = rng.Chance(0.3);
    o.empty = true;
    Base base(rng, o);
    base.Each(rng, [&](auto&, auto& def, const Hdr& h, const Body& b, Judge& j) {
        const std::string bin = m::BinaryBody(def.f, b);
        for (int k = 0; k < 14; ++k)
        {
            std::string s = bin;
            const char* what = "bin_valid";
            if (k < 5) { what = "bin_cut"; s.resize(rng.Below(bin.size() + 1)); }
            else if (k < 8) { what = "bin_bytes"; s = MutateBytes(rng, s); }
            else if (k < 11 && s.size() >= 4) // a length (or whatever else is there) replaced
            {
                what = "bin_len";
                size_t p = rng.Below(s.size() / 4) * 4;
                uint32_t v = rng.PickOf({0U, 1U, 2U, 3U, 5U, 7U, 8U, 255U, 256U, 65535U, 0x7FFFFFFFU, 0x80000000U, 0xFFFFFFFFU, 0x40000000U, 0x20000001U});
                for (size_t q = 0; q < 4 && p + q < s.size(); ++q) { s[p + q] = static_cast<char>(v >> (8 * q)); }
            }
            else if (k == 11) { what = "bin_longer"; s += rng.Bytes(rng.Below(9)); }
            else if (k == 12) { what = "bin_random"; s = rng.Bytes(rng.Below(80)); }
            if (s.size() > 60000) { continue; }
            Body w;
            BinIn in{s, 0, s.size()};
            R r = def.f.empty() ? R::Ok : RefBinary(def.f, in, w);
            if (r == R::Ok) { Defaults(def.f, w); }
            size_t before = PeakKb();
            j(what, s, 0, HEADER_FORMAT::BINARY, h, r, w, static_cast<uint32_t>(28 + s.size() + 4), 28);
            VT_CHECK(PeakKb() - before < 64 * 1024, "memory", "decoding " << s.size() << " bytes took " << (PeakKb() - before) << " kB: " << vt::Hex(s));
        }
    });
}

static void Text(Rng& rng, bool abb)
{
    m::GenOpt o;
    o.lenRef = rng.Chance(0.2);
    Base base(rng, o);
    base.Each(rng, [&](auto&, auto& def, const Hdr& h, const Body& b, Judge& j) {
        const std::string txt = m::AsciiBody(base.c->db, def.f, b, base.c->nm, abb).Str();
        const std::string tail = abb ? "\r\n" : "*1234abcd\r\n";
        for (int k = 0; k < 14; ++k)
        {
            std::string s = txt + tail;
            const char* what = abb ? "abb_valid" : "ascii_valid";
            if (k < 3) { what = abb ? "abb_cut" : "ascii_cut"; s.resize(rng.Below(txt.size() + 1)); }
            else if (k < 5) { what = abb ? "abb_early" : "ascii_early"; s = txt.substr(0, rng.Below(txt.size() + 1)) + tail; }
            else if (k < 8) { what = abb ? "abb_bytes" : "ascii_bytes"; s = MutateBytes(rng, txt) + (rng.Chance(0.8) ? tail : ""); }
            else if (k < 13) { what = abb ? "abb_tokens" : "ascii_tokens"; s = MutateTokens(rng, txt, abb ? " \r" : ",*") + tail; }
            if (s.size() > 20000) { continue; }
            // the body is given by its length, or by the null character after it
            bool nul = rng.Chance(0.3) && s.size() < 15000;
            std::string visible = s.substr(0, s.find('\0'));
            Body w;
            TxtIn in{visible, 0, abb};
            R r = def.f.empty() ? R::Any : RefText(*base.c, def.f, in, w, false);
            // values of strings and of the %s / %c kinds with characters that other formats do not carry are still usable
            HEADER_FORMAT f = abb ? (rng.Chance(0.5) ? HEADER_FORMAT::ABB_ASCII : HEADER_FORMAT::SHORT_ABB_ASCII) : (rng.Chance(0.5) ? HEADER_FORMAT::ASCII : HEADER_FORMAT::SHORT_ASCII);
            uint32_t hl = static_cast<uint32_t>(rng.Below(200));
            if (nul) { j(what, s, 1, f, h, r, w, 0, hl); }
            else { j(what, s, 0, f, h, s.empty() && hl == 0 ? R::Any : r, w, static_cast<uint32_t>(s.size()) + (s.empty() && hl == 0 ? 1 : hl), s.empty() && hl == 0 ? 1 : hl); }
        }
    });
}
VT_SUITE(ascii) { Text(rng, false); }
VT_SUITE(abbrev) { Text(rng, true); }

//! Replace something inside a JSON value.
static void MutateJson(Rng& r, nlohmann::json& j)
{
    if ((j.is_object() || j.is_array()) && !j.empty() && r.Chance(0.85))
    {
        auto it = j.begin();
        std::advance(it, static_cast<long>(r.Below(j.size())));
        switch (r.Below(8))
        {
        case 0: j.erase(it); return;
        case 1: if (j.is_array()) { auto x = *it; for (uint64_t n = 1 + r.Below(20); n; --n) { j.push_back(x); } return; } break;
        default: break;
        }
        MutateJson(r, *it);
        return;
    }
    switch (r.Below(14))
    {
    case 0: j = nullptr; break;
    case 1: j = true; break;
    case 2: j = HostileToken(r); if (j.get<std::string>().find_first_of("\xff\xfe") != std::string::npos || r.Chance(0.1)) { j = "x"; } break;
    case 3: j = nlohmann::json::array(); break;
    case 4: j = nlohmann::json::object(); break;
    case 5: j = r.PickOf({int64_t{-1}, int64_t{128}, int64_t{255}, int64_t{256}, int64_t{-129}, int64_t{65535}, int64_t{65536}, int64_t{-32769}, int64_t{2147483648}, int64_t{-2147483649}, int64_t{4294967295}, int64_t{4294967296}, INT64_MAX, INT64_MIN}); break;
    case 6: j = UINT64_MAX; break;
    case 7: j = 1.5; break;
    case 8: j = -1e300; break;
    case 9: j = nlohmann::json::array({1, "a", nullptr}); break;
    case 10: j = "UNKNOWN"; break;
    case 11: j = std::string(r.Below(60), 'q'); break;
    case 12: j = 4294967.296; break;
    default: j = r.Below(4); break;
    }
    // the hostile tokens include bytes that are not UTF-8
    try { (void)j.dump(); }
    catch (const std::exception&) { j = "y"; }
}
VT_SUITE(json)
{
    m::GenOpt o;
    Base base(rng, o, true);
    base.Each(rng, [&](auto& mm, auto& def, const Hdr& h, const Body& b, Judge& j) {
        // the document comes from the library's encoder (C13 checks that one)
        CompositeField src;
        oem::MetaDataStruct md0;
        std::string bin = m::BinaryBody(def.f, b);
        FillMeta(md0, h, mm.name, HEADER_FORMAT::BINARY, bin.size());
        if (base.dec->Decode(reinterpret_cast<const unsigned char*>(bin.data()), src, md0) != STATUS::SUCCESS) { return; }
        Enc e = Encode(*base.enc, ToInter(h), src, HEADER_FORMAT::JSON, ENCODE_FORMAT::JSON, 60000);
        nlohmann::json doc;
        bool dup = false;
        if (e.st != STATUS::SUCCESS || !ParseJson(e.msg, doc, dup)) { return; }
        for (int k = 0; k < 14; ++k)
        {
            std::string s = e.msg;
            const char* what = "json_valid";
            if (k < 2) { what = "json_cut"; s.resize(rng.Below(s.size())); }
            else if (k < 5) { what = "json_bytes"; s = MutateBytes(rng, s); s = s.substr(0, s.find('\0')); }
            else if (k < 13)
            {
                what = "json_values";
                auto d = doc;
                if (rng.Chance(0.05)) { MutateJson(rng, d); }
                else { MutateJson(rng, d["body"]); if (rng.Chance(0.2)) { MutateJson(rng, d["body"]); } }
                s = d.dump();
            }
            nlohmann::json d;
            Body w;
            R r = R::Any;
            if (!ParseJson(s, d, dup)) { r = R::Bad; }
            else if (HasBigInteger(s)) { r = R::Any; }
            else if (!dup) { r = d.is_object() && d.contains("body") ? RefJson(*base.c, def.f, d["body"], w) : R::Bad; }
            if (r == R::Bad && !ParseJson(s, d, dup) && !nlohmann::json::accept(s, true)) { vt::Count("json_syntax"); }
            j(what, s, 1, HEADER_FORMAT::JSON, h, r, w, static_cast<uint32_t>(s.size()), 0);
        }
    });
}

// ---------------------------------------------------------------- responses
VT_SUITE(responses)
{
    m::GenOpt o;
    o.maxFields = 2;
    Base base(rng, o);
    base.Each(rng, [&](auto& mm, auto&, Hdr h, const Body&, Judge&) {
        h.resp = true;
        for (int k = 0; k < 8; ++k)
        {
            bool bin = rng.Chance(0.5);
            std::string s = bin ? raw::LE(rng.Below(8), 4) + "Requested log does not exist" : "<ERROR:Requested log does not exist*00000000\r\n";
            if (bin) { s.resize(rng.Below(s.size() + 1)); }
            else
            {
                static const char* t[] = {"<OK*00000000\r\n", "<ERROR:Message, field = bad*00000000\r\n", "OK*00000000\r\n", "", "*", "OK", "ERROR:", "\r\n", "ERROR", "<", "<ERROR:Invalid checksum\r\n", ",,*"};
                s = MutateBytes(rng, t[rng.Below(std::size(t))]);
            }
            std::unique_ptr<unsigned char[]> buf(new unsigned char[s.size() + 1]);
            memcpy(buf.get(), s.data(), s.size());
            buf[s.size()] = 0;
            std::unique_ptr<unsigned char[]> exact(new unsigned char[std::max<size_t>(1, s.size())]);
            memcpy(exact.get(), s.data(), s.size());
            bool lengthless = !bin && rng.Chance(0.3);
            oem::MetaDataStruct md;
            HEADER_FORMAT f = bin ? HEADER_FORMAT::BINARY : rng.PickOf({HEADER_FORMAT::ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::SHORT_ABB_ASCII});
            FillMeta(md, h, mm.name, f, s.size());
            uint32_t hl = static_cast<uint32_t>(1 + rng.Below(50));
            md.uiLength = lengthless ? 0 : static_cast<uint32_t>(s.size()) + hl;
            md.uiHeaderLength = hl;
            STATUS st{};
            CompositeField got;
            auto ctx = [&] { return " format " + std::to_string(static_cast<int>(f)) + " body " + vt::Hex(s); };
            try { st = base.dec->Decode(lengthless ? buf.get() : exact.get(), got, md); }
            catch (const std::exception& e) { VT_CHECK(false, "exception", "decode threw " << e.what() << ctx()); }
            vt::Eval();
            vt::Distinct(vt::HashStr(s));
            if (bin && s.size() < 4) { VT_CHECK(st != STATUS::SUCCESS, "accepted", "SUCCESS for a response without its identifier" << ctx()); }
            if (st != STATUS::SUCCESS) { vt::Count("rejected"); continue; }
            try
            {
                int32_t id = got.template GetFieldValueByName<int32_t>("response_id");
                std::string txt = got.template GetFieldValueByName<std::string>("response_str");
                if (bin) { VT_CHECK(id == static_cast<int32_t>(Rd(s, 0, 4)) && txt == s.substr(4), "value", "id " << id << " text " << vt::Esc(txt) << ctx()); }
                else { VT_CHECK(txt.empty() || s.find(txt) != std::string::npos, "value", "text " << vt::Esc(txt) << ctx()); }
                size_t fields = 0;
                for (auto [hf, ef] : {std::pair{HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY}, {HEADER_FORMAT::ASCII, ENCODE_FORMAT::ASCII}, {HEADER_FORMAT::ABB_ASCII, ENCODE_FORMAT::ABBREV_ASCII}})
                {
                    Enc e = Encode(*base.enc, ToInter(h), got, hf, ef, 40000);
                    VT_CHECK(e.st == STATUS::SUCCESS && e.err.empty(), "unusable", "encoding returned " << static_cast<int>(e.st) << " " << e.err << ctx());
                    ++fields;
                }
                vt::Count("usable");
            }
            catch (const std::exception& e) { VT_CHECK(false, "unusable", "threw " << e.what() << ctx()); }
        }
    });
}

// ---------------------------------------------------------------- headers, and whatever follows them
VT_SUITE(header)
{
    static thread_local std::unique_ptr<Base> base;
    if (!base || rng.Chance(0.02)) { m::GenOpt o; base = std::make_unique<Base>(rng, o); }
    oem::HeaderDecoder hd(base->c->p);
    const auto& db = base->c->db;
    const auto& mm = db.msgs[rng.Below(db.msgs.size())];
    const auto& def = mm.Latest();
    Hdr h = GenHdr(rng, db, static_cast<uint16_t>(mm.id), def.crc);
    Body b = m::GenBody(rng, def.f, db, base->vo);
    for (int k = 0; k < 10; ++k)
    {
        std::string head, body;
        size_t minimum = 0; // what the header decoder may read, as a framer has seen the sync bytes and the header length
        switch (rng.Below(7))
        {
        case 0: head = AsciiHdr(db, h, rng.Chance(0.3)); body = m::AsciiBody(db, def.f, b, base->c->nm, false).Str() + "*00000000\r\n"; break;
        case 1: head = AbbHdr(db, h, rng.Chance(0.3)); body = m::AsciiBody(db, def.f, b, base->c->nm, true).Str() + "\r\n"; break;
        case 2: case 3: { bool brief = rng.Chance(0.4); body = m::BinaryBody(def.f, b); head = BinHdr(h, brief, body.size() & 0xFFFF); body += "\x01\x02\x03\x04"; minimum = brief ? 12 : 28; break; }
        case 4: head = "{\"header\":{\"message\":\"" + mm.name + "\",\"id\":" + std::to_string(mm.id) + ",\"port\":\"COM1\",\"sequence_num\":0,\"percent_idle_time\":2.5,\"time_status\":\"FINE\",\"week\":2000,\"seconds\":1.5,\"receiver_status\":0,\"HEADER_reserved1\":0,\"receiver_sw_version\":3},\"body\":{}}"; break;
        case 5: head = rng.PickOf<const char*>({"$GPGGA,1,2,3*55\r\n", "<OK\r\n", "<ERROR:Invalid checksum\r\n", "#", "%", "<", "{", "$", "\r\n", "#A", "%%%", "<<<<"}); break;
        default: head = rng.Bytes(rng.Below(60)); if (rng.Chance(0.5)) { head.insert(0, 1, rng.PickOf({'#', '%', '<', '{', '$'})); } break;
        }
        std::string s;
        switch (rng.Below(4))
        {
        case 0: s = MutateTokens(rng, head, head[0] == '<' ? " \r" : ",;") + body; break;
        case 1: s = MutateBytes(rng, head) + body; break;
        case 2: s = head.substr(0, rng.Below(head.size() + 1)); break;
        default: s = head + MutateBytes(rng, body); break;
        }
        bool binary = !s.empty() && static_cast<uint8_t>(s[0]) == 0xAA;
        bool json = !s.empty() && s[0] == '{';
        if (binary) { if (s.size() < std::max<size_t>(28, minimum)) { s.resize(28, '\0'); } } // a framer's frame is never shorter than its header
        else { s += json || rng.Chance(0.4) ? "" : "\r\n"; }
        bool nul = json || (!binary && (s.size() < 2 || s.substr(s.size() - 2) != "\r\n"));
        std::unique_ptr<unsigned char[]> buf(new unsigned char[s.size() + 1]);
        memcpy(buf.get(), s.data(), s.size());
        buf[s.size()] = 0;
        std::unique_ptr<unsigned char[]> exact(new unsigned char[std::max<size_t>(1, s.size())]);
        memcpy(exact.get(), s.data(), s.size());
        const unsigned char* p = nul ? buf.get() : exact.get();
        oem::IntermediateHeader ih;
        oem::MetaDataStruct md;
        STATUS st{};
        auto ctx = [&] { return " message " + vt::Hex(s); };
        try { st = hd.Decode(p, ih, md); }
        catch (const std::exception& e) { VT_CHECK(false, "exception", "header decode threw " << e.what() << ctx()); }
        vt::Eval();
        vt::Distinct(vt::HashStr(s));
        vt::Count("header." + std::to_string(static_cast<int>(st)));
        if (st != STATUS::SUCCESS) { continue; }
        VT_CHECK(md.uiHeaderLength <= s.size(), "header-length", "header length " << md.uiHeaderLength << " of " << s.size() << ctx());
        md.uiLength = static_cast<uint32_t>(s.size());
        // a binary frame is as long as its header says
        if (binary && (md.eFormat == HEADER_FORMAT::BINARY || md.eFormat == HEADER_FORMAT::SHORT_BINARY) && static_cast<size_t>(md.uiHeaderLength) + md.uiBinaryMsgLength > s.size()) { vt::Count("frame_too_short"); continue; }
        if (md.messageName == "RXCONFIG") { continue; }
        CompositeField got;
        try { st = base->dec->Decode(p + (json ? 0 : md.uiHeaderLength), got, md); }
        catch (const std::exception& e) { VT_CHECK(false, "exception", "decode threw " << e.what() << ctx()); }
        vt::Count("body." + std::to_string(static_cast<int>(st)));
        if (st != STATUS::SUCCESS || md.bResponse) { continue; }
        size_t fields = 0;
        std::string d = Usable(*base->enc, got, h, fields);
        VT_CHECK(d.empty(), "unusable", d << ctx());
    }
}
