// C20, C21: compressed range logs become the range logs they stand for, and nothing else; damaged ones are refused safely.
#include "codec.hpp"
#include "rangeref.hpp"
#include <novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp>
VT_MAIN()
using namespace cx;
using oem::MetaDataStruct;
using rr::BitW;
using rr::Obs;
using rr::Ref;

// ---------------------------------------------------------------- database
static FieldM Fld(K k, const char* name, T t, const char* alpha, std::optional<int> width = {}, std::optional<int> prec = {})
{
    FieldM f;
    f.kind = k;
    f.name = name;
    f.t = t;
    f.size = m::TSize(t);
    f.alpha = alpha;
    f.width = width;
    f.prec = prec;
    return f;
}
static const Ctx& Db()
{
    static const std::unique_ptr<Ctx> c = [] {
        DbM db;
        m::AddSystemEnums(db);
        auto add = [&](uint32_t id, const char* name, uint32_t crc, FieldM f) {
            m::MsgM x;
            x.id = id;
            x.oid = name;
            x.name = name;
            m::DefM d;
            d.crc = crc;
            d.f.push_back(std::move(f));
            x.defs.push_back(d);
            x.latest = crc;
            db.msgs.push_back(x);
        };
        FieldM r = Fld(K::Arr, "obs", T::UINT, "");
        r.size = 0;
        r.arrLen = 325;
        r.sub = {Fld(K::Simple, "prn", T::USHORT, "hu"), Fld(K::Simple, "glofreq", T::SHORT, "hd"), Fld(K::Simple, "psr", T::DOUBLE, "lf", {}, 3), Fld(K::Simple, "psr_std", T::FLOAT, "f", {}, 3), Fld(K::Simple, "adr", T::DOUBLE, "lf", {}, 6),
                 Fld(K::Simple, "adr_std", T::FLOAT, "f", {}, 3), Fld(K::Simple, "dopp", T::FLOAT, "f", {}, 3), Fld(K::Simple, "cno", T::FLOAT, "f", {}, 1), Fld(K::Simple, "locktime", T::FLOAT, "f", {}, 3), Fld(K::Simple, "ch_tr_status", T::ULONG, "lx", 8)};
        add(43, "RANGE", 0x1234, r);
        FieldM c1 = Fld(K::Arr, "obs", T::UINT, "");
        c1.size = 0;
        c1.arrLen = 325;
        c1.sub = {Fld(K::Fixed, "rec", T::UCHAR, "Z")};
        c1.sub[0].arrLen = 24;
        add(140, "RANGECMP", 0x1235, c1);
        int k = 0;
        for (uint32_t id : {1273U, 1734U, 2050U, 2537U})
        {
            FieldM v = Fld(K::Var, "data", T::UCHAR, "Z");
            v.arrLen = 10000;
            add(id, k == 0 ? "RANGECMP2" : k == 1 ? "RANGECMP3" : k == 2 ? "RANGECMP4" : "RANGECMP5", 0x1236 + k, v);
            ++k;
        }
        FieldM other = Fld(K::Simple, "x", T::UINT, "u");
        add(7, "SOMETHING", 0x77, other);
        return MakeCtx(std::move(db));
    }();
    return *c;
}
static int Gen(uint16_t id) { return id == 140 ? 1 : id == 1273 ? 2 : id == 2537 ? 5 : 4; }

// ---------------------------------------------------------------- logs
struct Signal { int sys, prn, sig, glo; double start; };
struct World // the satellites a history sees
{
    std::vector<Signal> s;
    std::map<std::tuple<int, int, int>, int> refId; // source, system, satellite
    double now = 0;
    bool truth = true; // lock fields follow the true lock time
};
static int RandGlo(Rng& r) { return static_cast<int>(r.Chance(0.97) ? r.Below(14) : r.Below(21)); }
static World MakeWorld(Rng& r, int gen, bool odd)
{
    World w;
    int n = static_cast<int>(r.PickOf({1, 3, 8, 20}));
    for (int i = 0; i < n; ++i)
    {
        const auto& sg = r.Pick(rr::Table(gen == 1 || gen == 5 ? 4 : gen));
        Signal s{sg.sys, 0, sg.sig, 0, 0};
        s.prn = static_cast<int>(gen == 2 ? (r.Chance(0.9) ? r.Range(1, 40) : r.Below(256)) : r.Chance(0.1) ? r.Range(63, 64) : r.Range(1, 64));
        if (gen != 2 && sg.sys == 2 && s.prn > 39 && (s.prn < 54 || s.prn > 62)) { s.prn = static_cast<int>(r.Chance(0.5) ? r.Range(1, 39) : r.Range(54, 62)); }
        s.glo = sg.sys == 1 ? RandGlo(r) : 0;
        if (odd && r.Chance(0.15)) { s.sys = static_cast<int>(r.Below(gen == 2 ? 32 : 16)); s.sig = static_cast<int>(r.Below(gen == 2 ? 32 : 16)); }
        w.s.push_back(s);
        if (r.Chance(0.5) && i) // another signal of the satellite before
        {
            auto& t = w.s[w.s.size() - 2];
            std::vector<int> sigs;
            for (auto& x : rr::Table(gen == 2 ? 2 : 4)) { if (x.sys == t.sys) { sigs.push_back(x.sig); } }
            if (!sigs.empty()) { w.s.back() = Signal{t.sys, t.prn, r.Pick(sigs), t.glo, 0}; }
        }
    }
    w.now = static_cast<double>(r.Range(100, 4000)) * 604800000.0 + static_cast<double>(r.Chance(0.25) ? r.Range(604780000, 604799999) : r.Below(604800000));
    if (r.Chance(0.6)) { w.now -= std::fmod(w.now, 250); }
    for (auto& s : w.s) { s.start = w.now - (r.Chance(0.3) ? 0 : r.Chance(0.5) ? r.Unit() * 70000 : r.Unit() * 600000); }
    return w;
}
static void Advance(Rng& r, World& w)
{
    double d = r.Chance(0.35) ? 1000 : r.Chance(0.4) ? 250 : r.Chance(0.5) ? static_cast<double>(r.Below(2000)) : r.Chance(0.7) ? static_cast<double>(r.Below(70000)) : static_cast<double>(r.Below(400000));
    w.now += d;
    for (auto& s : w.s) { if (r.Chance(0.06)) { s.start = w.now - r.Unit() * std::min(d, 4000.0); } } // lost and found again
}
static double True(const World& w, const Signal& s) { return w.now - s.start; }
static int Bucket(double ms) { int b = 0; while (b < 15 && ms >= rr::kLockMs[b + 1]) { ++b; } return b; }

static int64_t SField(Rng& r, int n, double invalid)
{
    int64_t lo = -(1LL << (n - 1)), hi = (1LL << (n - 1)) - 1;
    if (r.Chance(invalid)) { return lo; }
    if (r.Chance(0.15)) { return r.PickOf({lo + 1, hi, int64_t(0), int64_t(-1), int64_t(1), lo / 2, lo / 2 - 1, hi / 2 + 1}); }
    return static_cast<int64_t>(r.Next()) >> (64 - n) == lo ? lo + 1 : static_cast<int64_t>(r.Next()) >> (64 - n);
}
static std::string LogOne(Rng& r, World& w, bool odd)
{
    size_t n = w.s.size();
    if (r.Chance(0.004)) { n = 325; }
    std::string d = raw::LE(n, 4);
    for (size_t i = 0; i < n; ++i)
    {
        const Signal& s = w.s[i % w.s.size()];
        const rr::Sig* t = rr::Find(4, s.sys, s.sig);
        BitW b;
        uint32_t cts = static_cast<uint32_t>(r.Next());
        if (!odd || r.Chance(0.8)) { cts = (cts & ~0x03E70000U) | static_cast<uint32_t>(rr::CtsSys(s.sys)) << 16 | (t ? static_cast<uint32_t>(t->cts) << 21 : 0); }
        b.Put(cts, 32);
        b.Put(static_cast<uint64_t>(SField(r, 28, 0.05)), 28);
        double psr = r.Chance(0.8) ? 1.9e7 + r.Unit() * 2.5e7 : r.Unit() * 5e8;
        b.Put(r.Chance(0.05) ? r.Next() : static_cast<uint64_t>(psr * 128), 36);
        b.Put(r.Next(), 32);
        b.Put(r.Next(), 4);
        b.Put(r.Next(), 4);
        b.Put(s.sys == 1 ? static_cast<uint64_t>(s.prn % 27 + 38) : r.Chance(0.9) ? static_cast<uint64_t>(s.prn) : r.Next(), 8);
        b.Put(r.Chance(0.1) ? 0x1FFFFF : r.Next(), 21);
        b.Put(r.Next(), 5);
        b.Put(static_cast<uint64_t>(s.sys == 1 ? s.glo : r.Chance(0.9) ? 0 : odd ? r.Below(64) : 0), 6);
        b.Put(r.Chance(0.7) ? 0 : r.Next(), 16);
        d += b.d;
    }
    return d;
}
static std::string LogTwo(Rng& r, World& w, bool odd)
{
    std::string d;
    std::map<std::pair<int, int>, std::vector<Signal>> sats;
    for (auto& s : w.s) { if (r.Chance(0.85)) { sats[{s.sys, s.prn}].push_back(s); } }
    size_t obs = 0;
    for (auto& [k, v] : sats)
    {
        if (v.size() > 15) { v.resize(15); }
        BitW b;
        b.Put(r.Next(), 8);
        b.Put(static_cast<uint64_t>(k.second), 8);
        b.Put(static_cast<uint64_t>(v[0].glo & 15), 4);
        b.Put(static_cast<uint64_t>(k.first), 5);
        b.Put(r.Next(), 1);
        b.Put(r.Chance(0.8) ? static_cast<uint64_t>(r.Range(19000000, 45000000)) : r.Next(), 29);
        b.Put(static_cast<uint64_t>(SField(r, 21, 0.02)), 21);
        b.Put(v.size(), 4);
        d += b.d;
        for (auto& s : v)
        {
            BitW g;
            g.Put(static_cast<uint64_t>(s.sig), 5);
            g.Put(r.Next(), 3);
            double t = True(w, s);
            g.Put(w.truth ? (t > 131071 ? 131071 : static_cast<uint64_t>(t)) : r.Chance(0.4) ? 131071 : r.Next(), 17);
            g.Put(odd ? r.Next() : r.Below(7), 4);
            g.Put(r.Next(), 3);
            g.Put(r.Next(), 5);
            g.Put(r.Next(), 8);
            g.Put(r.Next(), 14);
            g.Put(r.Next(), 20);
            g.Put(static_cast<uint64_t>(SField(r, 17, 0.02)), 17);
            d += g.d;
            ++obs;
        }
    }
    (void)obs;
    return raw::LE(d.size(), 4) + d;
}
static std::string LogFour(Rng& r, World& w, int gen, int src, bool odd)
{
    std::map<int, std::map<int, std::vector<Signal>>> sys;
    bool wide = r.Chance(0.01);
    for (auto& s : w.s) { if (r.Chance(0.85) && s.sig < 16 && s.sys < 16 && s.prn >= 1 && s.prn <= 64) { sys[s.sys][s.prn].push_back(s); } }
    if (wide) // every satellite of a system: more than 325 observations are possible
    {
        int k = r.PickOf({0, 5, 6, 7}), nsig = static_cast<int>(r.Range(1, 7));
        std::vector<int> sigs;
        for (auto& x : rr::Table(4)) { if (x.sys == k && static_cast<int>(sigs.size()) < nsig) { sigs.push_back(x.sig); } }
        for (int p = 1; p <= 64; ++p) { for (int g : sigs) { sys[k][p].push_back(Signal{k, p, g, 0, w.now}); } }
    }
    BitW b;
    uint64_t mask = 0;
    for (auto& [k, v] : sys) { mask |= 1ULL << k; }
    b.Put(mask, 16);
    bool allRef = gen == 4 && r.Chance(std::fmod(w.now, 1000) < 1 ? 0.85 : 0.2);
    for (auto& [k, sats] : sys)
    {
        uint64_t sm = 0, gm = 0;
        for (auto& [p, v] : sats) { sm |= 1ULL << (p - 1); for (auto& s : v) { gm |= 1ULL << s.sig; } }
        b.Put(sm, 64);
        b.Put(gm, 16);
        for (auto& [p, v] : sats)
        {
            for (int g = 0; g < 16; ++g)
            {
                if (!(gm >> g & 1)) { continue; }
                bool in = false;
                for (auto& s : v) { in |= s.sig == g; }
                b.Put(in, 1);
            }
        }
        for (auto& [p, v] : sats)
        {
            auto rk = std::make_tuple(src, k, p);
            bool diff = gen == 4 ? !allRef && r.Chance(0.55) : r.Chance(0.1);
            int id = static_cast<int>(r.Below(8));
            if (diff && w.refId.count(rk) && r.Chance(0.9)) { id = w.refId[rk]; }
            if (gen == 4 && !diff) { w.refId[rk] = id; }
            b.Put(diff, 1);
            b.Put(static_cast<uint64_t>(id), 3);
            if (k == 1 && !(gen == 4 && diff)) { b.Put(static_cast<uint64_t>(odd && r.Chance(0.1) ? r.Below(32) : static_cast<uint64_t>(v[0].glo)), 5); }
            std::map<int, Signal> bySig;
            for (auto& s : v) { bySig[s.sig] = s; }
            bool first = true;
            for (auto& [g, s] : bySig)
            {
                b.Put(r.Next(), 2);
                b.Put(r.Next(), 11);
                b.Put(w.truth ? static_cast<uint64_t>(Bucket(True(w, s))) : r.Next(), 4);
                b.Put(r.Next(), gen == 5 ? 10 : 8);
                if (diff && gen == 4)
                {
                    b.Put(static_cast<uint64_t>(SField(r, 19, 0.06)), 19);
                    b.Put(static_cast<uint64_t>(SField(r, 16, 0.06)), 16);
                    b.Put(static_cast<uint64_t>(SField(r, first ? 18 : 14, 0.06)), first ? 18 : 14);
                }
                else
                {
                    if (first) { b.Put(r.Chance(0.06) ? 137438953471ULL : r.Chance(0.9) ? static_cast<uint64_t>(r.Range(38000000000LL, 90000000000LL)) : r.Next(), 37); }
                    else { b.Put(static_cast<uint64_t>(SField(r, 20, 0.06)), 20); }
                    b.Put(static_cast<uint64_t>(SField(r, 23, 0.06)), 23);
                    int n = gen == 5 ? (first ? 28 : 16) : first ? 26 : 14;
                    b.Put(static_cast<uint64_t>(SField(r, n, 0.08)), n);
                }
                first = false;
            }
        }
    }
    std::string d = b.d;
    if (r.Chance(0.1)) { d += r.Bytes(r.Range(1, 9)); } // room the log did not use
    return raw::LE(d.size(), 4) + d;
}
static std::string MakeLog(Rng& r, World& w, uint16_t id, int src, bool odd)
{
    switch (Gen(id))
    {
    case 1: return LogOne(r, w, odd);
    case 2: return LogTwo(r, w, odd);
    default: return LogFour(r, w, Gen(id), src, odd);
    }
}

// ---------------------------------------------------------------- one message in, one out
struct Out
{
    STATUS st = STATUS::UNKNOWN;
    std::string msg;
    MetaDataStruct md;
};
static Out Run(oem::RangeDecompressor& d, const std::string& in, size_t cap, ENCODE_FORMAT f)
{
    Out o;
    std::unique_ptr<unsigned char[]> b(new unsigned char[cap]);
    memset(b.get(), 0x5A, cap);
    memcpy(b.get(), in.data(), std::min(cap, in.size()));
    if (in.size() < cap) { b[in.size()] = 0; }
    o.st = d.Decompress(b.get(), static_cast<uint32_t>(cap), o.md, f);
    if (o.st == STATUS::SUCCESS)
    {
        VT_CHECK(o.md.uiLength <= cap, "length", "reported length " << o.md.uiLength << " in a buffer of " << cap);
        o.msg.assign(reinterpret_cast<char*>(b.get()), o.md.uiLength);
    }
    return o;
}
static const HEADER_FORMAT kHf[] = {HEADER_FORMAT::BINARY, HEADER_FORMAT::ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::JSON};
static const ENCODE_FORMAT kEf[] = {ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON};
//! The compressed log as a message of the wanted format; empty: the body is not one the format can carry.
static std::string Message(const Hdr& h, const std::string& body, int fmt)
{
    if (fmt == 0)
    {
        std::string x = BinHdr(h, false, body.size()) + body;
        return x + raw::LE(raw::Crc32(x), 4);
    }
    const Ctx& c = Db();
    static oem::MessageDecoder md(c.p);
    static oem::Encoder enc(c.p);
    MetaDataStruct meta;
    FillMeta(meta, h, HdrName(c.db, h), HEADER_FORMAT::BINARY, body.size());
    std::unique_ptr<unsigned char[]> b(new unsigned char[body.size()]);
    memcpy(b.get(), body.data(), body.size());
    CompositeField f;
    if (md.Decode(b.get(), f, meta) != STATUS::SUCCESS) { return ""; }
    Enc e = Encode(enc, ToInter(h, fmt == 1 ? MESSAGE_FORMAT::ASCII : fmt == 2 ? MESSAGE_FORMAT::ABBREV : MESSAGE_FORMAT::RSRVD), f, kHf[fmt], kEf[fmt], 120000);
    return e.st == STATUS::SUCCESS ? e.msg : "";
}
//! Text fields of a range log, or the message of what is wrong.
struct Rec { std::vector<std::string> t; std::vector<double> v; };
static std::vector<std::string> Split(const std::string& s, char c)
{
    std::vector<std::string> v(1);
    for (char x : s) { if (x == c) { v.emplace_back(); } else { v.back() += x; } }
    return v;
}
static double Num(const std::string& s)
{
    if (s == "nan" || s == "-nan" || s == "null") { return NAN; }
    char* e = nullptr;
    double d = std::strtod(s.c_str(), &e);
    VT_CHECK(!s.empty() && !*e, "token", "\"" << vt::Esc(s) << "\" is not a number");
    return d;
}
static const char* kName[] = {"prn", "glofreq", "psr", "psr_std", "adr", "adr_std", "dopp", "cno", "locktime", "ch_tr_status"};
static std::vector<std::vector<double>> Parse(const std::string& o, int fmt, Hdr h)
{
    const DbM& db = Db().db;
    std::vector<std::vector<double>> rows;
    h.id = 43;
    if (fmt == 0)
    {
        VT_CHECK(o.size() >= 28 + 4 + 4, "short_output", "only " << o.size() << " bytes");
        std::string body = o.substr(28, o.size() - 32), want = BinHdr(h, false, body.size()), got = o.substr(0, 28);
        want.replace(24, 2, got.substr(24, 2)); // which definition: not determined
        VT_CHECK(got == want, "header", "header " << vt::Hex(got) << " want " << vt::Hex(want));
        VT_CHECK(raw::RdLE(o, o.size() - 4, 4) == raw::Crc32(o.substr(0, o.size() - 4)), "crc", "bad checksum");
        size_t n = raw::RdLE(body, 0, 4);
        VT_CHECK(body.size() == 4 + 44 * n, "size", n << " observations in " << body.size() << " bytes");
        for (size_t i = 0; i < n; ++i)
        {
            const char* p = body.data() + 4 + 44 * i;
            auto rd = [&p](auto v) { memcpy(&v, p, sizeof(v)); p += sizeof(v); return static_cast<double>(v); };
            std::vector<double> r;
            r.push_back(rd(uint16_t()));
            r.push_back(rd(int16_t()));
            r.push_back(rd(double()));
            r.push_back(rd(float()));
            r.push_back(rd(double()));
            for (int k = 0; k < 4; ++k) { r.push_back(rd(float())); }
            r.push_back(rd(uint32_t()));
            rows.push_back(r);
        }
        return rows;
    }
    if (fmt == 3)
    {
        auto j = nlohmann::json::parse(o);
        auto hj = j.at("header");
        h.defcrc = hj.value("HEADER_reserved1", 0U);
        std::string e = JsonHdr(db, h, false, hj);
        VT_CHECK(e.empty(), "header", e);
        for (auto& x : j.at("body").at("obs"))
        {
            std::vector<double> r;
            for (auto* n : kName) { r.push_back(x.at(n).is_null() ? NAN : x.at(n).get<double>()); }
            VT_CHECK(x.size() == 10, "fields", x.dump());
            rows.push_back(r);
        }
        return rows;
    }
    char sep = fmt == 1 ? ',' : ' ';
    size_t at = fmt == 1 ? o.find(';') : o.find("\r\n");
    VT_CHECK(at != std::string::npos, "header", "no end of header in " << vt::Esc(o));
    at += fmt == 1 ? 1 : 2;
    auto gh = Split(o.substr(0, at), sep), wh = Split(fmt == 1 ? AsciiHdr(db, h, false) : AbbHdr(db, h, false), sep);
    VT_CHECK(gh.size() == wh.size(), "header", vt::Esc(o.substr(0, at)));
    gh[8] = wh[8];
    VT_CHECK(gh == wh, "header", vt::Esc(o.substr(0, at)) << " want " << vt::Esc(fmt == 1 ? AsciiHdr(db, h, false) : AbbHdr(db, h, false)));
    std::vector<std::string> tok;
    if (fmt == 1)
    {
        size_t star = o.find('*', at);
        VT_CHECK(star != std::string::npos && o.size() == star + 11 && o.substr(star + 9) == "\r\n", "end", vt::Esc(o.substr(o.size() > 40 ? o.size() - 40 : 0)));
        VT_CHECK(o.substr(star + 1, 8) == raw::Hex8(raw::Crc32(o.substr(1, star - 1))), "crc", "bad checksum");
        tok = Split(o.substr(at, star - at), ',');
    }
    else
    {
        std::string line;
        for (size_t i = at; i < o.size(); ++i) // records are lines
        {
            if (o[i] == '\r' || o[i] == '\n' || o[i] == ' ' || o[i] == '<') { if (!line.empty()) { tok.push_back(line); } line.clear(); }
            else { line += o[i]; }
        }
        if (!line.empty()) { tok.push_back(line); }
    }
    size_t n = static_cast<size_t>(Num(tok.at(0)));
    VT_CHECK(tok.size() == 1 + n * 10, "fields", tok.size() << " values for " << n << " observations");
    for (size_t i = 0; i < n; ++i)
    {
        std::vector<double> r;
        for (int k = 0; k < 10; ++k)
        {
            const std::string& t = tok[1 + i * 10 + k];
            r.push_back(k == 9 ? static_cast<double>(std::stoul(t, nullptr, 16)) : Num(t));
            if (k == 9) { VT_CHECK(t.size() == 8, "status_text", t); }
        }
        rows.push_back(r);
    }
    return rows;
}
static void Same(const std::vector<std::vector<double>>& got, const std::vector<Obs>& want, int fmt)
{
    VT_CHECK(got.size() == want.size(), "count", got.size() << " observations, want " << want.size());
    static const double half[10] = {0, 0, 0.0005, 0.0005, 0.0000005, 0.0005, 0.0005, 0.05, 0.0005, 0};
    for (size_t i = 0; i < want.size(); ++i)
    {
        const Obs& w = want[i];
        const auto& g = got[i];
        double v[10] = {static_cast<double>(w.prn), static_cast<double>(w.glo), w.psr, w.psrStd, w.adr, w.adrStd, w.dop, w.cno, w.lock, 0};
        bool skip[10] = {w.uPrn, false, w.uPsr, false, w.uAdr, false, w.uDop, false, w.uLock, true};
        for (int k = 0; k < 10; ++k)
        {
            if (skip[k]) { continue; }
            bool flt = k == 3 || k >= 5;
            double tol = k < 2 ? 0 : flt ? std::fabs(v[k]) * 5e-7 + 1e-9 : std::fabs(v[k]) * 2e-14 + 1e-7;
            if (k == 4) { tol += 1e-6; } // phase in cycles: a small difference of large numbers
            if (fmt != 0) { tol += half[k] * 1.01; }
            bool ok = std::isnan(v[k]) ? std::isnan(g[k]) : std::fabs(g[k] - v[k]) <= tol;
            VT_CHECK(ok, std::string("value_") + kName[k], "observation " << i << ": " << kName[k] << " " << m::Fmt("%.17g", g[k]) << " want " << m::Fmt("%.17g", v[k]) << " for " << w.Text());
        }
        uint32_t s = static_cast<uint32_t>(g[9]);
        VT_CHECK((s & w.ctsMask) == (w.cts & w.ctsMask), "value_ch_tr_status", "observation " << i << ": status " << std::hex << s << " want " << w.Text());
    }
}

// ---------------------------------------------------------------- histories
struct Rx
{
    Ref ref;
    std::unique_ptr<oem::RangeDecompressor> d = std::make_unique<oem::RangeDecompressor>(Db().p), twin; // twin: made at the last reset
};
static void History(Rng& r, const std::vector<uint16_t>& ids, bool odd, bool damaged)
{
    Rx x;
    const Ctx& c = Db();
    World w = MakeWorld(r, Gen(r.Pick(ids)), odd);
    w.truth = r.Chance(0.6);
    int logs = static_cast<int>(r.PickOf({1, 4, 10, 25}));
    uint64_t trace = 0;
    bool twoSrc = r.Chance(0.4);
    std::string steps;
    for (int i = 0; i < logs; ++i)
    {
        if (r.Chance(0.05))
        {
            x.d->Reset();
            x.ref.Reset();
            x.twin = std::make_unique<oem::RangeDecompressor>(c.p);
            vt::Count("resets");
            steps += " reset";
            if (r.Chance(0.3)) { w.now -= 1e6; for (auto& s : w.s) { s.start -= 2e6; } }
        }
        Advance(r, w);
        uint16_t id = r.Pick(ids);
        int gen = Gen(id), src = twoSrc && r.Chance(0.5) ? 1 : 0;
        Hdr h = GenHdr(r, c.db, id, 0);
        h.sib = static_cast<uint8_t>(src);
        h.week = static_cast<uint16_t>(std::floor(w.now / 604800000.0));
        h.ms = static_cast<uint32_t>(w.now - 604800000.0 * h.week);
        double now = 604800000.0 * h.week + h.ms;
        const auto* mm = c.db.Msg(id);
        h.defcrc = r.Chance(0.9) ? mm->latest : static_cast<uint32_t>(r.Next() & 0xFFFF);
        int in = r.Chance(0.7) ? 0 : static_cast<int>(r.Range(1, 3));
        if (in == 0) { h.port &= 0xFF; h.ts &= 0xFF; }
        std::string body = MakeLog(r, w, id, src, odd);
        if (damaged && r.Chance(0.12))
        {
            size_t at = r.Below(body.size());
            if (r.Chance(0.5)) { body.resize(at); }
            else { body[at] = static_cast<char>(r.Next()); }
            vt::Count("damaged");
        }
        int out = r.Chance(0.7) ? 4 : static_cast<int>(r.Below(4));
        std::string msg = Message(h, body, in);
        if (msg.empty()) { vt::Count("not_wrapped"); continue; }
        std::vector<Obs> want;
        bool unspec = false, ok = x.ref.Decode(gen, body, src, now, (h.ms % 1000) / 1000.0, want, unspec);
        size_t cap = 150000 + r.Below(100);
        Out o = Run(*x.d, msg, cap, out == 4 ? ENCODE_FORMAT::UNSPECIFIED : kEf[out]);
        int of = out == 4 ? in : out;
        vt::Count(std::string("gen") + std::to_string(gen) + (ok ? unspec ? "_odd" : "_good" : "_bad"));
        vt::Count(std::string("in_") + std::to_string(in) + "_out_" + std::to_string(of));
        steps += " " + std::to_string(id) + (src ? "b" : "a") + "@" + std::to_string(h.week) + ":" + std::to_string(h.ms) + (i + 3 > logs ? "=" + vt::Hex(body, 300) : "");
        trace = vt::HashBytes(body.data(), body.size(), trace);
        try
        {
            if (x.twin)
            {
                Out t = Run(*x.twin, msg, cap, out == 4 ? ENCODE_FORMAT::UNSPECIFIED : kEf[out]);
                VT_CHECK(t.st == o.st && t.msg == o.msg, "history", "after a reset: status " << static_cast<int>(o.st) << " and a fresh decompressor's " << static_cast<int>(t.st) << ", " << (t.msg == o.msg ? "same" : "other") << " output");
                vt::Count("twin_compared");
            }
            if (o.st == STATUS::SUCCESS)
            {
                VT_CHECK(ok || unspec, "accepted", "a log that is not well formed became " << vt::Hex(o.msg, 120));
                auto got = Parse(o.msg, of, h);
                VT_CHECK(got.size() <= 325, "too_many", got.size() << " observations");
                VT_CHECK(o.md.usMessageId == 43 && o.md.messageName == "RANGE", "metadata", "id " << o.md.usMessageId << " name " << o.md.messageName);
                if (out == 4) { VT_CHECK(o.md.eFormat == kHf[in], "metadata", "format " << static_cast<int>(o.md.eFormat)); }
                size_t hl = of == 0 ? 28 : of == 1 ? o.msg.find(';') + 1 : of == 2 ? o.msg.find("\r\n") + 2 : o.md.uiHeaderLength;
                VT_CHECK(o.md.uiHeaderLength == hl, "metadata", "header length " << o.md.uiHeaderLength << " want " << hl);
                if (!unspec)
                {
                    Same(got, want, of);
                    vt::Count("observations", got.size());
                    vt::Eval();
                    if (!got.empty()) { vt::Distinct(vt::HashBytes(body.data(), body.size(), trace)); }
                    if (!want.empty()) { vt::Sample(std::to_string(id) + " " + want[0].Text()); }
                }
            }
            else
            {
                VT_CHECK(!ok || unspec, "refused", "status " << static_cast<int>(o.st) << " for a well-formed log of " << want.size() << " observations");
                vt::Eval();
            }
        }
        catch (const vt::Violation& v)
        {
            vt::Fail(v.key, std::string(v.what()) + " | in " + std::to_string(in) + " out " + std::to_string(of) + " |" + steps);
        }
        if (!ok || unspec) // what a refused log leaves behind is not determined
        {
            x.d->Reset();
            x.ref.Reset();
            x.twin = std::make_unique<oem::RangeDecompressor>(c.p);
        }
    }
    vt::Count("differential", x.ref.differential);
    vt::Count("reference", x.ref.reference);
    vt::Count("without_reference", x.ref.skipped);
    vt::Count("lock_jumps", x.ref.jumps);
    vt::Count("lock_outages", x.ref.outages);
}
VT_SUITE(cmp1) { History(rng, {140}, rng.Chance(0.1), false); }
VT_SUITE(cmp2) { History(rng, {1273}, rng.Chance(0.1), false); }
VT_SUITE(cmp4)
{
    if (rng.Chance(0.5)) { History(rng, {2050}, rng.Chance(0.1), false); }
    else if (rng.Chance(0.5)) { History(rng, {1734}, rng.Chance(0.1), false); }
    else { History(rng, {1734, 2050}, false, false); }
}
VT_SUITE(cmp5) { History(rng, {2537}, rng.Chance(0.1), false); }
VT_SUITE(mixed) { History(rng, {140, 1273, 1734, 2050, 2537}, false, false); }
VT_SUITE(damaged) { History(rng, rng.Chance(0.5) ? std::vector<uint16_t>{rng.PickOf({uint16_t(140), uint16_t(1273), uint16_t(2050), uint16_t(2537)})} : std::vector<uint16_t>{140, 1273, 1734, 2050, 2537}, true, true); }

// ---------------------------------------------------------------- hostile
VT_SUITE(hostile)
{
    const Ctx& c = Db();
    oem::RangeDecompressor d(c.p);
    int n = static_cast<int>(rng.Range(1, 6));
    for (int i = 0; i < n; ++i)
    {
        uint16_t id = rng.PickOf({uint16_t(140), uint16_t(1273), uint16_t(1734), uint16_t(2050), uint16_t(2537)});
        int gen = Gen(id);
        World w = MakeWorld(rng, gen, true);
        w.truth = false;
        std::string body;
        switch (rng.Below(5))
        {
        case 0: body = rng.Bytes(rng.Below(400)); break;
        case 1: // a plausible count, then anything
            body = raw::LE(rng.PickOf({uint64_t(1), uint64_t(100), uint64_t(325), uint64_t(326), uint64_t(0xFFFFFFFF), uint64_t(0x80000000), uint64_t(8000), rng.Below(400)}), 4) + rng.Bytes(rng.PickOf({0, 4, 60, 400, 8000, 9000}));
            break;
        case 2: // everything set: as many satellites and signals as can be
            body = std::string(static_cast<size_t>(rng.PickOf({10, 200, 2000, 8000})), static_cast<char>(rng.PickOf({0xFF, 0x7F, 0x00, 0x55})));
            body = raw::LE(body.size(), 4) + body;
            break;
        default:
            body = MakeLog(rng, w, id, 0, true);
            for (uint64_t k = rng.Below(4); k > 0 && !body.empty(); --k)
            {
                size_t at = rng.Below(body.size());
                switch (rng.Below(4))
                {
                case 0: body.resize(at); break;
                case 1: body[at] = static_cast<char>(rng.Next()); break;
                case 2: body.insert(at, rng.Bytes(rng.Range(1, 30))); break;
                default: body[rng.Below(std::min<size_t>(body.size(), 20))] = static_cast<char>(rng.PickOf({0xFF, 0x80, 0x00, 0x7F}));
                }
            }
        }
        if (body.size() > 65000) { body.resize(65000); }
        Hdr h = GenHdr(rng, c.db, rng.Chance(0.97) ? id : uint16_t(7), 0);
        h.defcrc = c.db.Msg(h.id)->latest;
        h.sib = static_cast<uint8_t>(rng.Chance(0.9) ? rng.Below(2) : rng.Below(32));
        h.resp = rng.Chance(0.04);
        h.port &= 0xFF;
        h.ts &= 0xFF;
        int in = rng.Chance(0.75) || h.resp ? 0 : static_cast<int>(rng.Range(1, 3));
        bool brief = in == 0 && !h.resp && rng.Chance(0.08) && body.size() < 256;
        std::string msg;
        if (brief)
        {
            msg = BinHdr(h, true, body.size()) + body;
            msg += raw::LE(raw::Crc32(msg), 4);
        }
        else { msg = Message(h, body, in); }
        if (msg.empty()) { vt::Count("not_wrapped"); continue; }
        int out = rng.Chance(0.5) ? 4 : static_cast<int>(rng.Below(4));
        size_t cap = rng.Chance(0.4) ? msg.size() : rng.Chance(0.4) ? msg.size() + rng.Below(600) : 200000;
        bool lies = in == 0 && !brief && rng.Chance(0.1); // the header promises more than the buffer holds
        if (lies)
        {
            uint16_t len = static_cast<uint16_t>(std::min<size_t>(65535, body.size() + 5 + rng.Below(9000)));
            msg[8] = static_cast<char>(len);
            msg[9] = static_cast<char>(len >> 8);
            cap = msg.size();
        }
        if (in != 0 && cap == msg.size()) { ++cap; }
        Ref ref;
        std::vector<Obs> want;
        bool unspec = false;
        if (rng.Chance(0.7)) { d.Reset(); }
        Out o = Run(d, msg, cap, out == 4 ? ENCODE_FORMAT::UNSPECIFIED : kEf[out]);
        vt::Eval();
        vt::Distinct(vt::HashBytes(body.data(), body.size(), id + 7919 * in));
        vt::Count(o.st == STATUS::SUCCESS ? "success" : "refused");
        bool ok = ref.Decode(gen, lies ? body + std::string(4, 0) : body, h.sib & 1, 0, 0.5, want, unspec);
        if (o.st != STATUS::SUCCESS) { continue; }
        VT_CHECK(!h.resp, "response", "the response to a command was decompressed");
        VT_CHECK(h.id == id && h.sib < 2, "wrong_log", "log " << h.id << " of source " << int(h.sib) << " was decompressed");
        VT_CHECK(!lies, "beyond_buffer", "a message longer than its buffer was decompressed");
        VT_CHECK(ok || unspec, "accepted", id << ": a log that is not well formed became " << vt::Hex(o.msg, 120) << " | " << vt::Hex(body, 300));
        if (brief) { continue; }
        auto got = Parse(o.msg, out == 4 ? in : out, h);
        VT_CHECK(got.size() <= 325, "too_many", got.size() << " observations");
        if (!unspec && ref.refs.empty() == false && ref.skipped == 0 && ref.differential == 0) { VT_CHECK(got.size() == want.size(), "count", got.size() << " observations, want " << want.size()); }
    }
}
//! Every kind of output that fits, in a buffer of every size around its length.
VT_SUITE(room)
{
    const Ctx& c = Db();
    oem::RangeDecompressor d(c.p);
    uint16_t id = rng.PickOf({uint16_t(140), uint16_t(1273), uint16_t(2050), uint16_t(2537)});
    World w = MakeWorld(rng, Gen(id), false);
    Hdr h = GenHdr(rng, c.db, id, 0);
    h.defcrc = c.db.Msg(id)->latest;
    h.sib = 0;
    h.port &= 0xFF;
    h.ts &= 0xFF;
    std::string body = MakeLog(rng, w, id, 0, false), msg = Message(h, body, 0);
    int out = static_cast<int>(rng.Below(4));
    Out full = Run(d, msg, 400000, kEf[out]);
    if (full.st != STATUS::SUCCESS) { return; }
    vt::Distinct(vt::HashStr(full.msg));
    std::vector<size_t> caps;
    for (size_t k = 0; k < 40; ++k) { caps.push_back(full.msg.size() + 20 - k); }
    for (int k = 0; k < 20; ++k) { caps.push_back(rng.Below(full.msg.size() + 40)); }
    for (size_t cap : caps)
    {
        if (cap < msg.size()) { continue; }
        d.Reset();
        Out o = Run(d, msg, cap, kEf[out]);
        vt::Eval();
        if (o.st == STATUS::SUCCESS) { VT_CHECK(o.msg == full.msg, "other", "in " << cap << " bytes: " << vt::Esc(o.msg, 200) << " want " << vt::Esc(full.msg, 200)); vt::Count("fits"); }
        else { VT_CHECK(cap < full.msg.size() + 8, "no_room", "status " << static_cast<int>(o.st) << " in " << cap << " bytes for a message of " << full.msg.size()); vt::Count("does_not_fit"); }
    }
}
template <typename X, uint32_t N> static void Fixed(const std::string& s, size_t skip)
{
    std::unique_ptr<unsigned char[]> b(new unsigned char[s.size()]);
    memcpy(b.get(), s.data(), s.size());
    rr::Bits want{s};
    unsigned char* p = b.get();
    uint32_t left = static_cast<uint32_t>(s.size()), off = 0;
    (void)want.Get(static_cast<int>(skip));
    if (skip > s.size() * 8) { return; }
    p += skip / 8;
    left -= static_cast<uint32_t>(skip / 8);
    off = skip % 8;
    while (true)
    {
        uint64_t w = want.Get(N), w2 = 0;
        uint64_t g = 0, g2 = 0;
        bool threw = false;
        unsigned char* q = p;
        uint32_t ql = left, qo = off;
        try { g = static_cast<uint64_t>(oem::ExtractBitfield<X, N>(&p, left, off)); }
        catch (const std::runtime_error&) { threw = true; }
        try { g2 = static_cast<uint64_t>(oem::ExtractBitfield<X>(&q, ql, qo, N)); }
        catch (const std::runtime_error&) { VT_CHECK(threw, "differ", "only one form reports the end"); }
        (void)w2;
        VT_CHECK(threw == want.bad, "end", N << " bits: " << (threw ? "refused" : "read") << " at bit " << want.at << " of " << s.size() * 8);
        if (threw) { return; }
        VT_CHECK(g == w && g2 == w, "bits", N << " bits ending at " << want.at << ": " << std::hex << g << " and " << g2 << " want " << w);
        VT_CHECK(static_cast<size_t>(p - b.get()) * 8 + off == want.at && left == s.size() - static_cast<size_t>(p - b.get()) && off < 8 && q == p && ql == left && qo == off, "position", N << " bits: position " << (p - b.get()) << ":" << off);
        vt::Eval();
    }
}
VT_SUITE(bits)
{
    std::string s = rng.Bytes(static_cast<size_t>(rng.Chance(0.4) ? rng.PickOf({1, 8, 9}) : rng.Range(1, 40)));
    size_t skip = rng.Below(std::min<size_t>(s.size() * 8, 24));
    vt::Distinct(vt::HashStr(s) + skip);
    Fixed<bool, 1>(s, skip);
    Fixed<uint8_t, 3>(s, skip);
    Fixed<uint8_t, 5>(s, skip);
    Fixed<uint16_t, 11>(s, skip);
    Fixed<uint16_t, 16>(s, skip);
    Fixed<uint32_t, 19>(s, skip);
    Fixed<uint32_t, 28>(s, skip);
    Fixed<uint32_t, 32>(s, skip);
    Fixed<uint64_t, 37>(s, skip);
    Fixed<uint64_t, 56>(s, skip);
    Fixed<uint64_t, 57>(s, skip);
    Fixed<uint64_t, 63>(s, skip);
    Fixed<uint64_t, 64>(s, skip);
}
