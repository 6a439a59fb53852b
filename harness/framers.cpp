// C03-C07: framers driven with well-formed, hostile and chunked streams; every call is monitored.
#include "rawgen.hpp"
#include <memory>
#include <novatel_edie/decoders/common/framer_manager.hpp>
#include <novatel_edie/decoders/oem/framer.hpp>
#include <novatel_edie/decoders/oem/framer_abb_ascii.hpp>
#include <novatel_edie/decoders/oem/framer_ascii.hpp>
#include <novatel_edie/decoders/oem/framer_ascii_short.hpp>
#include <novatel_edie/decoders/oem/framer_binary.hpp>
#include <novatel_edie/decoders/oem/framer_binary_short.hpp>
VT_MAIN()

using namespace novatel::edie;
using raw::F;
using vt::Rng;

static std::string FlushAll(std::function<uint32_t(unsigned char*, uint32_t)> fl, size_t chunk)
{
    std::string out;
    for (int guard = 0; guard < 100000; ++guard)
    {
        std::unique_ptr<unsigned char[]> b(new unsigned char[chunk]);
        uint32_t n = fl(b.get(), static_cast<uint32_t>(chunk));
        if (n == 0) { return out; }
        VT_CHECK(n <= chunk, "flush-overrun", "Flush returned " << n << " with a buffer of " << chunk);
        out.append(reinterpret_cast<char*>(b.get()), n);
    }
    vt::Fail("flush-endless", "Flush does not drain the framer");
}

struct Ev
{
    STATUS st;
    F fmt;
    size_t off, len;
    std::string framer;
};

static F FromHeader(HEADER_FORMAT h, bool resp)
{
    switch (h)
    {
    case HEADER_FORMAT::ASCII: return F::Ascii;
    case HEADER_FORMAT::SHORT_ASCII: return F::ShortAscii;
    case HEADER_FORMAT::ABB_ASCII: return resp ? F::AbbResp : F::Abb;
    case HEADER_FORMAT::BINARY: return F::Bin;
    case HEADER_FORMAT::SHORT_BINARY: return F::ShortBin;
    case HEADER_FORMAT::PROPRIETARY_BINARY: return F::PropBin;
    case HEADER_FORMAT::NMEA: return F::Nmea;
    case HEADER_FORMAT::JSON: return F::Json;
    default: return F::Unknown;
    }
}

struct AnyFramer
{
    virtual ~AnyFramer() = default;
    virtual size_t Write(const unsigned char* p, size_t n) = 0;
    virtual STATUS Get(unsigned char* p, uint32_t n, HEADER_FORMAT& f, uint32_t& len, bool& resp, std::string& who) = 0;
    virtual uint32_t Flush(unsigned char* p, uint32_t n) = 0;
    virtual size_t Space() = 0;
    virtual void Report(bool) = 0;
    virtual void Json(bool) {}
    virtual void Payload(bool) {}
    std::string name;
    std::vector<F> formats;
    bool freshMeta = false; // give a new metadata object after every delivered frame (what the Python layer does)
};
template <typename T> struct Single final : AnyFramer
{
    T f;
    oem::MetaDataStruct md;
    Single(const char* n, std::vector<F> fs) { name = n; formats = std::move(fs); }
    size_t Write(const unsigned char* p, size_t n) override { return f.Write(p, n); }
    STATUS Get(unsigned char* p, uint32_t n, HEADER_FORMAT& fm, uint32_t& len, bool& resp, std::string& who) override
    {
        STATUS s = f.GetFrame(p, n, md);
        fm = md.eFormat;
        len = md.uiLength;
        resp = md.bResponse;
        who = name;
        if (freshMeta && (s == STATUS::SUCCESS || s == STATUS::UNKNOWN)) { md = oem::MetaDataStruct(); }
        return s;
    }
    uint32_t Flush(unsigned char* p, uint32_t n) override { return f.Flush(p, n); }
    size_t Space() override { return f.GetAvailableSpace(); }
    void Report(bool b) override { f.SetReportUnknownBytes(b); }
    void Json(bool b) override
    {
        f.SetFrameJson(b);
        if (b && formats.size() > 4) { formats.push_back(F::Json); name += "+JSON"; }
    }
    void Payload(bool b) override { f.SetPayloadOnly(b); }
};
static const std::vector<F> kOem = {F::Ascii, F::ShortAscii, F::Abb, F::AbbResp, F::Bin, F::ShortBin, F::PropBin, F::Nmea};
static const std::vector<std::pair<std::string, std::vector<F>>> kNames = {{"OEM", kOem}, {"OEM_ASCII", {F::Ascii}}, {"OEM_ASCII_SHORT", {F::ShortAscii}}, {"OEM_ABB_ASCII", {F::Abb, F::AbbResp}}, {"OEM_BINARY", {F::Bin}}, {"OEM_BINARY_SHORT", {F::ShortBin}}};

struct Manager final : AnyFramer
{
    FramerManager m;
    std::vector<std::string> names;
    explicit Manager(std::vector<std::string> ns) : m(ns), names(std::move(ns))
    {
        name = "MANAGER{";
        for (auto& n : names)
        {
            name += n + " ";
            for (auto& [k, v] : kNames)
            {
                if (k == n)
                {
                    for (F f : v)
                    {
                        if (std::find(formats.begin(), formats.end(), f) == formats.end()) { formats.push_back(f); }
                    }
                }
            }
        }
        name += "}";
    }
    size_t Write(const unsigned char* p, size_t n) override { return m.Write(p, n); }
    STATUS Get(unsigned char* p, uint32_t n, HEADER_FORMAT& fm, uint32_t& len, bool& resp, std::string& who) override
    {
        MetaDataBase* md = nullptr;
        STATUS s = m.GetFrame(p, n, md);
        if (s == STATUS::BUFFER_EMPTY) { return s; }
        VT_CHECK(md != nullptr, "manager-null-metadata", "status " << static_cast<int>(s));
        fm = md->eFormat;
        len = md->uiLength;
        resp = md->bResponse;
        if (s == STATUS::SUCCESS)
        {
            who = m.GetActiveFramerName();
            VT_CHECK(m.GetMetaData(who) == md, "manager-metadata-identity", "active framer " << who << " is not the one whose metadata was returned");
            VT_CHECK(m.GetActiveFramerId() == FramerManager::GetFramerId(who), "manager-active-id", who);
        }
        return s;
    }
    uint32_t Flush(unsigned char* p, uint32_t n) override { return m.Flush(p, n); }
    size_t Space() override { return m.GetAvailableSpace(); }
    void Report(bool b) override { m.SetReportUnknownBytes(b); }
};

static std::unique_ptr<AnyFramer> MakeManager(Rng& rng)
{
    std::vector<std::string> ns;
    if (rng.Chance(0.15)) { ns = {"OEM"}; }
    else if (rng.Chance(0.25)) { ns = {"OEM_ASCII", "OEM_ASCII_SHORT", "OEM_ABB_ASCII", "OEM_BINARY", "OEM_BINARY_SHORT"}; }
    else
    {
        for (auto& [k, v] : kNames)
        {
            if (rng.Chance(k == "OEM" ? 0.3 : 0.5)) { ns.push_back(k); }
        }
    }
    if (ns.empty()) { ns.push_back("OEM_BINARY"); }
    for (size_t i = ns.size(); i > 1; --i) { std::swap(ns[i - 1], ns[rng.Below(i)]); }
    return std::make_unique<Manager>(ns);
}

static std::unique_ptr<AnyFramer> MakeFramer(Rng& rng, int force = -1)
{
    std::unique_ptr<AnyFramer> r;
    switch (force >= 0 ? force : static_cast<int>(rng.Below(10)))
    {
    case 0: r = std::make_unique<Single<oem::FramerAscii>>("FramerAscii", std::vector<F>{F::Ascii}); break;
    case 1: r = std::make_unique<Single<oem::FramerAsciiShort>>("FramerAsciiShort", std::vector<F>{F::ShortAscii}); break;
    case 2: r = std::make_unique<Single<oem::FramerAbbAscii>>("FramerAbbAscii", std::vector<F>{F::Abb, F::AbbResp}); break;
    case 3: r = std::make_unique<Single<oem::FramerBinary>>("FramerBinary", std::vector<F>{F::Bin}); break;
    case 4: r = std::make_unique<Single<oem::FramerBinaryShort>>("FramerBinaryShort", std::vector<F>{F::ShortBin}); break;
    case 5:
    case 6: r = std::make_unique<Single<oem::Framer>>("Framer", kOem); break;
    case 7: r = std::make_unique<Single<oem::Framer>>("Framer", kOem); r->Json(true); break;
    default: r = MakeManager(rng);
    }
    r->freshMeta = rng.Chance(0.3);
    return r;
}

static std::string SyncSet(const std::vector<F>& fs)
{
    std::string s;
    for (F f : fs)
    {
        char c = f == F::Ascii ? '#' : f == F::ShortAscii ? '%' : f == F::Abb || f == F::AbbResp ? '<' : f == F::Nmea ? '$' : f == F::Json ? '{' : '\xAA';
        if (s.find(c) == std::string::npos) { s += c; }
    }
    return s;
}

//! Monitors every call. Conservation, validity, buffer discipline and bounded work are checked on the spot.
struct Driver
{
    AnyFramer& f;
    std::string in;     // accepted by Write
    size_t off = 0;     // consumed so far
    bool report = true, payload = false;
    std::vector<Ev> ev; // SUCCESS only
    uint64_t calls = 0, unknownBytes = 0;
    explicit Driver(AnyFramer& a) : f(a) {}

    void Write(std::string_view s)
    {
        std::unique_ptr<unsigned char[]> b(new unsigned char[s.size()]);
        std::memcpy(b.get(), s.data(), s.size());
        const size_t space = f.Space();
        const size_t n = f.Write(b.get(), s.size());
        VT_CHECK(n == (s.size() <= space ? s.size() : 0), "write-count", "wrote " << n << " of " << s.size() << " with space " << space);
        VT_CHECK(f.Space() == space - n, "write-space", f.Space() << " after writing " << n << " at " << space);
        in.append(s.substr(0, n));
    }
    std::string Where(uint32_t size) const
    {
        return f.name + " off=" + std::to_string(off) + " bufsize=" + std::to_string(size) + (f.freshMeta ? " fresh-metadata" : "") + " stream=" + vt::Esc(std::string_view(in).substr(off, 300)) + " hex=" + vt::Hex(std::string_view(in).substr(off, 120));
    }
    STATUS Get(uint32_t size)
    {
        std::unique_ptr<unsigned char[]> b(new unsigned char[size]);
        const size_t space = f.Space();
        HEADER_FORMAT hf = HEADER_FORMAT::UNKNOWN;
        uint32_t len = 0;
        bool resp = false;
        std::string who;
        const STATUS st = f.Get(b.get(), size, hf, len, resp, who);
        ++calls;
        const size_t consumed = f.Space() - space;
        VT_CHECK(f.Space() >= space && off + consumed <= in.size(), "space-accounting", Where(size));
        const std::string_view bytes(reinterpret_cast<char*>(b.get()), std::min<size_t>(len, size));
        if (st == STATUS::SUCCESS)
        {
            const F fm = FromHeader(hf, resp);
            VT_CHECK(len <= size, "success-does-not-fit", len << " bytes, " << Where(size));
            const bool stripped = payload && (fm == F::Bin || fm == F::ShortBin || fm == F::PropBin);
            if (!stripped)
            {
                VT_CHECK(consumed == len && len > 0, "success-consumed", "consumed " << consumed << " length " << len << " " << Where(size));
                VT_CHECK(bytes == std::string_view(in).substr(off, len), "success-bytes", "got " << vt::Esc(bytes) << " " << Where(size));
            }
            else
            {
                const size_t hl = fm == F::ShortBin ? 12 : 28;
                VT_CHECK(consumed == len + hl + 4, "payload-consumed", "consumed " << consumed << " payload length " << len << " " << Where(size));
                VT_CHECK(bytes == std::string_view(in).substr(off + hl, len), "payload-bytes", "got " << vt::Hex(bytes) << " " << Where(size));
            }
            const std::string why = raw::Invalid(fm, std::string_view(in).substr(off, consumed), f.formats.size() >= kOem.size());
            VT_CHECK(why.empty(), "invalid-frame", raw::Name(fm) << ": " << why << ", length " << len << " " << Where(size));
            VT_CHECK(std::find(f.formats.begin(), f.formats.end(), fm) != f.formats.end(), "unselected-format", raw::Name(fm) << " " << Where(size));
            if (fm == F::Abb || fm == F::AbbResp) { vt::Count(fm == F::Abb ? "abb_frames" : "abb_responses"); }
            else { vt::Count(std::string("frames_") + raw::Name(fm)); }
            ev.push_back({st, fm, off, consumed, who});
            off += consumed;
        }
        else if (st == STATUS::UNKNOWN)
        {
            VT_CHECK(consumed > 0, "unknown-no-progress", Where(size));
            VT_CHECK(consumed == len, "unknown-length", "consumed " << consumed << " length " << len << " " << Where(size));
            VT_CHECK(hf == HEADER_FORMAT::UNKNOWN, "unknown-format", static_cast<int>(hf) << " " << Where(size));
            if (report)
            {
                VT_CHECK(len <= size, "unknown-does-not-fit", len << " bytes, " << Where(size));
                VT_CHECK(bytes == std::string_view(in).substr(off, len), "unknown-bytes", "got " << vt::Esc(bytes) << " " << Where(size));
            }
            unknownBytes += consumed;
            vt::Count("unknown_bytes", consumed);
            off += consumed;
        }
        else
        {
            VT_CHECK(st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE || st == STATUS::BUFFER_FULL, "status", static_cast<int>(st) << " " << Where(size));
            VT_CHECK(consumed == 0, "consumed-without-delivering", consumed << " status " << static_cast<int>(st) << " " << Where(size));
            VT_CHECK((st == STATUS::BUFFER_EMPTY) == (off == in.size()), "buffer-empty", "status " << static_cast<int>(st) << " " << Where(size));
            vt::Count(st == STATUS::BUFFER_EMPTY ? "empty" : st == STATUS::INCOMPLETE ? "incomplete" : "buffer_full");
        }
        return st;
    }
    //! Pull until nothing more comes out. `size` gives each call's buffer; a BUFFER_FULL is retried with room for anything.
    void Drain(const std::function<uint32_t()>& size)
    {
        const uint64_t limit = calls + 2 * (in.size() - off) + 10;
        while (true)
        {
            VT_CHECK(calls <= limit, "no-progress", Where(0));
            STATUS st = Get(size());
            if (st == STATUS::BUFFER_FULL)
            {
                st = Get(40000);
                VT_CHECK(st != STATUS::BUFFER_FULL, "buffer-full-with-room", Where(40000));
            }
            if (st == STATUS::BUFFER_EMPTY || st == STATUS::INCOMPLETE) { return; }
        }
    }
    void Finish(size_t flushChunk)
    {
        const std::string rest = FlushAll([&](unsigned char* p, uint32_t n) { return f.Flush(p, n); }, flushChunk);
        if (report) { VT_CHECK(rest == in.substr(off), "flush-bytes", "flushed " << vt::Esc(rest) << " expected " << vt::Esc(in.substr(off)) << " " << f.name); }
        else { VT_CHECK(rest.size() == in.size() - off, "flush-count", rest.size()); }
        VT_CHECK(f.Space() == RECOMMENDED_FRAME_BUFFER_SIZE, "flush-space", f.Space());
        off = in.size();
    }
};

static std::string Mutate(Rng& rng, std::string m)
{
    for (int k = 1 + static_cast<int>(rng.Below(3)); k > 0 && !m.empty(); --k)
    {
        size_t p = rng.Below(m.size());
        switch (rng.Below(4))
        {
        case 0: m[p] = static_cast<char>(m[p] ^ (1 << rng.Below(8))); break;
        case 1: m[p] = static_cast<char>(rng.Next()); break;
        case 2: m.erase(p, 1); break;
        default: m.insert(p, 1, rng.PickOf({'#', '*', '\r', '\n', '<', ' ', '$', '\xAA', '0', '{'}));
        }
    }
    return m;
}

//! Something that resembles a message but is not one.
static std::string NearMiss(Rng& rng, raw::Gen& g)
{
    switch (rng.Below(10))
    {
    case 0: { // checksum written with fewer digits, then a filler
        std::string in = g.Ident(4) + "A,";
        uint32_t c;
        int tries = 0;
        std::string body;
        do { body = in + g.Text(10, "*"); c = raw::Crc32(body); } while ((c >> 28) != 0 && ++tries < 200);
        return (rng.Chance(0.5) ? "#" : "%") + body + "*" + raw::Hex8(c).substr(1) + rng.PickOf({' ', 'g', '*', 'x'}) + "\r\n";
    }
    case 1: { // extra text between NMEA '*' and its checksum
        std::string m = g.Make(F::Nmea);
        m.insert(m.size() - 4, g.Text(1 + rng.Below(5), ""));
        return m;
    }
    case 2: { // NMEA without CR
        std::string m = g.Make(F::Nmea);
        m[m.size() - 2] = rng.PickOf({' ', '0', '\n', 'x'});
        return m;
    }
    case 3: { // one-digit NMEA checksum
        std::string in;
        unsigned x;
        do
        {
            in = "GPXYZ," + g.Text(8, "*");
            x = 0;
            for (unsigned char c : in) { x ^= c; }
        } while (x > 15);
        return "$" + in + "*" + "0123456789ABCDEF"[x] + rng.PickOf({' ', 'G', '\r', '*'}) + "\r\n";
    }
    case 4: { // sync of one kind, layout of another
        std::string m = g.Make(rng.Chance(0.5) ? F::Bin : F::ShortBin);
        m.resize(m.size() - 4);
        m[1] = rng.PickOf({'\x44', '\x45', '\x46'});
        if (rng.Chance(0.5)) { m[2] = rng.PickOf({'\x12', '\x13'}); }
        return raw::BinWrap(m);
    }
    case 5: return g.Make(F::Abb).substr(0, 4 + rng.Below(20)) + "\r\n" + g.Text(rng.Below(10)); // header line without a body
    case 6: { // body lines only
        std::string s;
        for (size_t k = 1 + rng.Below(4); k > 0; --k) { s += "< " + g.Text(rng.Below(20)) + "\r\n"; }
        return s;
    }
    case 7: { // right checksum over the wrong span
        std::string in = g.Ident(4) + "A," + g.Text(20, "*");
        return "#" + in + "*" + raw::Hex8(raw::Crc32("#" + in)) + "\r\n";
    }
    case 8: { // binary header announcing a long body
        std::string m = raw::BinHeader(0x44, 42, 0, 32, static_cast<uint16_t>(rng.Chance(0.5) ? 32768 - 32 + rng.Range(-2, 2) : rng.Next()), 0, 0, 0, 0, 0, 0, 0, 0);
        return m + rng.Bytes(rng.Below(40));
    }
    default: { // big-endian or zero checksum
        std::string m = g.Make(F::Bin);
        std::string c = m.substr(m.size() - 4);
        std::reverse(c.begin(), c.end());
        return m.substr(0, m.size() - 4) + (rng.Chance(0.5) ? c : std::string(4, '\0'));
    }
    }
}

static std::string Hostile(Rng& rng, const std::vector<F>& fs, size_t pieces, size_t cap = 24000)
{
    raw::Gen g(rng);
    static const std::vector<F> all = {F::Ascii, F::ShortAscii, F::Abb, F::AbbResp, F::Bin, F::ShortBin, F::PropBin, F::Nmea, F::Json};
    std::string s;
    const size_t max = rng.Chance(0.05) ? 6000 : 300;
    for (size_t i = 0; i < pieces && s.size() < cap; ++i)
    {
        const F f = rng.Chance(0.8) ? fs[rng.Below(fs.size())] : all[rng.Below(all.size())];
        switch (rng.Below(9))
        {
        case 0:
        case 1:
        case 2: s += g.Make(f, max); break;
        case 3: {
            std::string m = g.Make(f, max);
            s += m.substr(0, rng.Below(m.size() + 1));
            break;
        }
        case 4: s += Mutate(rng, g.Make(f, max)); break;
        case 5: { // one message inside another
            std::string m = g.Make(f, max);
            m.insert(rng.Below(m.size() + 1), g.Make(fs[rng.Below(fs.size())], max));
            s += m;
            break;
        }
        case 6: {
            for (size_t k = rng.Below(30); k > 0; --k) { s += rng.PickOf({'#', '%', '<', '$', '{', '}', '*', '\r', '\n', ' ', '\xAA', '\x44', '\x12', '\x13', '\x45', 'O', 'K', 'A', '0'}); }
            break;
        }
        case 7: s += rng.Chance(0.3) ? rng.Bytes(rng.Below(300)) : g.Text(rng.Below(300), rng.Chance(0.5) ? "#%<${" : ""); break;
        default: s += NearMiss(rng, g);
        }
    }
    return s;
}

struct Expect { F fmt; size_t off, len; };
//! Valid messages of the framer's formats, separated by bytes that cannot begin or contain one.
static std::string WellFormed(Rng& rng, const std::vector<F>& fs, std::vector<Expect>& ex, size_t n, size_t cap = 60000)
{
    raw::Gen g(rng);
    const std::string sync = SyncSet(fs);
    std::string s;
    auto noise = [&](size_t k) {
        std::string r;
        const bool text = rng.Chance(0.6);
        while (r.size() < k)
        {
            char c = text ? static_cast<char>(32 + rng.Below(95)) : static_cast<char>(rng.Next());
            if (rng.Chance(0.1)) { c = rng.PickOf({'\r', '\n', '*', ' ', '}', '\x44', '\x12'}); }
            if (sync.find(c) == std::string::npos) { r += c; }
        }
        return r;
    };
    for (size_t i = 0; i < n && s.size() < cap; ++i)
    {
        if (rng.Chance(0.5)) { s += noise(rng.Chance(0.15) ? 250 + rng.Below(12) : rng.Chance(0.05) ? 3000 : rng.Size(40)); }
        const F f = fs[rng.Below(fs.size())];
        const std::string m = g.Make(f, rng.Chance(0.04) ? 32768 : 600);
        ex.push_back({f, s.size(), m.size()});
        s += m;
    }
    s += noise(2 + rng.Below(20)); // abbreviated ASCII needs to see what follows
    return s;
}

static void Chunked(Rng& rng, Driver& d, const std::string& s, int mode, const std::function<uint32_t()>& size)
{
    size_t p = 0;
    while (p < s.size())
    {
        size_t n = mode == 0 ? s.size() : mode == 1 ? 1 : mode == 2 ? 1 + rng.Below(7) : mode == 3 ? 1 + rng.Below(400) : rng.Chance(0.7) ? 1 : 1 + rng.Below(100);
        n = std::min({n, s.size() - p, d.f.Space()});
        d.Write(std::string_view(s).substr(p, n));
        p += n;
        d.Drain(size);
    }
}
static std::string Show(const std::vector<Ev>& v)
{
    std::string r;
    for (auto& e : v) { r += std::string(raw::Name(e.fmt)) + "@" + std::to_string(e.off) + "+" + std::to_string(e.len) + " "; }
    return r;
}
static uint32_t kBig() { return 40000; }

static void WellFormedCase(Rng& rng, AnyFramer& f, const std::function<uint32_t()>& size)
{
    std::vector<Expect> ex;
    const std::string s = WellFormed(rng, f.formats, ex, 1 + rng.Below(12));
    int mode = static_cast<int>(rng.Below(5));
    if (mode == 1 && s.size() > 6000) { mode = 3; }
    Driver d(f);
    Chunked(rng, d, s, mode, size);
    size_t k = 0;
    for (auto& e : ex)
    {
        VT_CHECK(k < d.ev.size(), "message-missed", f.name << ": " << raw::Name(e.fmt) << "@" << e.off << "+" << e.len << " not delivered (mode " << mode << "); got " << Show(d.ev) << " message " << vt::Esc(s.substr(e.off > 20 ? e.off - 20 : 0, e.len + 40)));
        auto& g = d.ev[k++];
        VT_CHECK(g.off == e.off && g.len == e.len && g.fmt == e.fmt, "message-differs", f.name << " mode " << mode << ": expected " << raw::Name(e.fmt) << "@" << e.off << "+" << e.len << " got " << raw::Name(g.fmt) << "@" << g.off << "+" << g.len << " stream " << vt::Esc(s.substr(e.off, 400)));
    }
    VT_CHECK(d.ev.size() == ex.size(), "extra-message", f.name << " " << Show(d.ev));
    d.Finish(1 + rng.Below(300));
    vt::Eval();
    vt::Count("messages", ex.size());
    vt::Distinct(vt::HashBytes(s.data(), s.size(), vt::HashStr(f.name) + mode));
    vt::Sample(f.name + " mode " + std::to_string(mode) + ": " + Show(d.ev));
}

VT_SUITE(wellformed)
{
    auto f = MakeFramer(rng);
    WellFormedCase(rng, *f, kBig);
}

// The sequence of messages must not depend on chunking, whatever the stream is.
VT_SUITE(chunks)
{
    auto mk = rng; // same configuration for both runs
    auto a = MakeFramer(mk);
    auto mk2 = rng;
    auto b = MakeFramer(mk2);
    rng = mk;
    const std::string s = Hostile(rng, a->formats, 1 + rng.Below(14));
    Driver d(*a), e(*b);
    Chunked(rng, d, s, 0, kBig);
    const int mode = s.size() > 5000 ? 3 : 1 + static_cast<int>(rng.Below(4));
    Chunked(rng, e, s, mode, kBig);
    bool same = d.ev.size() == e.ev.size();
    for (size_t i = 0; same && i < d.ev.size(); ++i) { same = d.ev[i].off == e.ev[i].off && d.ev[i].len == e.ev[i].len && d.ev[i].fmt == e.ev[i].fmt; }
    VT_CHECK(same, "chunking-changes-messages", a->name << (a->freshMeta ? " fresh" : "") << " mode " << mode << ": whole " << Show(d.ev) << " chunked " << Show(e.ev) << " stream " << vt::Esc(s, 1500) << " hex " << vt::Hex(s, 1500));
    d.Finish(64);
    e.Finish(64);
    vt::Eval();
    vt::Count("messages", d.ev.size());
    vt::Distinct(vt::HashBytes(s.data(), s.size(), vt::HashStr(a->name) + mode));
}

// Random writes, gets, sizes and flushes in the middle of hostile streams.
VT_SUITE(conserve)
{
    auto f = MakeFramer(rng);
    Driver d(*f);
    const bool rep = rng.Chance(0.8);
    f->Report(rep);
    d.report = rep;
    std::string trace;
    const int steps = 2 + static_cast<int>(rng.Below(20));
    for (int i = 0; i < steps; ++i)
    {
        switch (rng.Below(6))
        {
        case 0:
        case 1: d.Write(Hostile(rng, f->formats, 1 + rng.Below(4))); break;
        case 2: {
            std::string h = Hostile(rng, f->formats, 1);
            for (size_t p = 0; p < h.size();)
            {
                size_t n = std::min<size_t>(h.size() - p, 1 + rng.Below(50));
                d.Write(std::string_view(h).substr(p, n));
                p += n;
                if (rng.Chance(0.5)) { d.Get(40000); }
            }
            break;
        }
        case 3: d.Drain([&] { return static_cast<uint32_t>(rng.Chance(0.8) ? 40000 : rng.Below(400)); }); break;
        case 4:
            for (size_t k = rng.Below(6); k > 0; --k) { d.Get(static_cast<uint32_t>(rng.Chance(0.5) ? 40000 : rng.Below(400))); }
            break;
        default:
            if (rng.Chance(0.3))
            {
                size_t n = rng.Below(50);
                std::unique_ptr<unsigned char[]> b(new unsigned char[n]);
                const size_t avail = d.in.size() - d.off;
                uint32_t k = f->Flush(b.get(), static_cast<uint32_t>(n));
                VT_CHECK(k == std::min(n, avail), "flush-count", k << " of " << avail << " into " << n);
                if (rep) { VT_CHECK(std::string_view(reinterpret_cast<char*>(b.get()), k) == std::string_view(d.in).substr(d.off, k), "flush-bytes", f->name); }
                d.off += k;
                vt::Count("flushes");
            }
        }
    }
    d.Finish(1 + rng.Below(200));
    vt::Eval();
    vt::Count("messages", d.ev.size());
    vt::Count("bytes", d.in.size());
    vt::Distinct(vt::HashBytes(d.in.data(), d.in.size(), vt::HashStr(f->name)));
    vt::Sample(f->name + ": " + Show(d.ev));
}

// The buffer keeps its capacity: refill beyond it, around the wrap of the internal storage.
VT_SUITE(refill)
{
    auto f = MakeFramer(rng);
    Driver d(*f);
    raw::Gen g(rng);
    size_t total = 0;
    while (total < 1400000)
    {
        std::string h;
        const size_t want = rng.Chance(0.3) ? f->Space() + rng.Below(4) : 20000 + rng.Below(200000);
        while (h.size() < want) { h += rng.Chance(0.85) ? g.Make(f->formats[rng.Below(f->formats.size())], 20000) : Hostile(rng, f->formats, 1); }
        h.resize(want);
        total += want;
        d.Write(h);
        if (rng.Chance(0.7)) { d.Drain(kBig); }
        else { for (size_t k = rng.Below(100); k > 0; --k) { d.Get(40000); } }
        if (d.in.size() - d.off > 200000 || rng.Chance(0.2)) { d.Finish(100000); }
    }
    d.Finish(5000);
    vt::Eval();
    vt::Count("bytes", d.in.size());
    vt::Count("messages", d.ev.size());
    vt::Distinct(vt::HashBytes(d.in.data(), d.in.size(), vt::HashStr(f->name)));
}

VT_SUITE(validity) // dense in near misses: every success is checked by the independent validator
{
    auto f = MakeFramer(rng);
    raw::Gen g(rng);
    std::string s;
    const std::string sync = SyncSet(f->formats);
    size_t valid = 0;
    for (size_t k = 1 + rng.Below(6); k > 0; --k)
    {
        switch (rng.Below(5))
        {
        case 0: s += NearMiss(rng, g); break;
        case 1:
        case 2: { // one corrupted covered byte, or a burst of up to 32 bits
            std::string m = g.Make(f->formats[rng.Below(f->formats.size())], 200);
            if (rng.Chance(0.5)) { m[rng.Below(m.size())] = static_cast<char>(m[rng.Below(m.size())] ^ (1 + rng.Below(255))); }
            else
            {
                size_t bit = rng.Below(m.size() * 8);
                for (size_t b = bit; b < std::min(bit + 32, m.size() * 8); ++b)
                {
                    if (b == bit || rng.Chance(0.5)) { m[b / 8] = static_cast<char>(m[b / 8] ^ (1 << (b % 8))); }
                }
            }
            s += m;
            break;
        }
        case 3: s += Mutate(rng, g.Make(f->formats[rng.Below(f->formats.size())], 300)); break;
        default: s += g.Make(f->formats[rng.Below(f->formats.size())], 300); ++valid;
        }
    }
    Driver d(*f);
    Chunked(rng, d, s, static_cast<int>(rng.Below(5)), kBig);
    d.Finish(100);
    vt::Eval();
    vt::Count("valid_in", valid);
    vt::Count("messages", d.ev.size());
    vt::Distinct(vt::HashBytes(s.data(), s.size(), vt::HashStr(f->name)));
}

// Corrupt one covered byte of a single message: that message must not come out.
VT_SUITE(corrupt)
{
    raw::Gen g(rng);
    auto f = MakeFramer(rng, static_cast<int>(rng.Below(9)));
    F fm;
    do { fm = f->formats[rng.Below(f->formats.size())]; } while ((fm == F::Abb || fm == F::AbbResp || fm == F::Json) && f->formats.size() > 2);
    if (fm == F::Abb || fm == F::AbbResp || fm == F::Json) { return; }
    const std::string m = g.Make(fm, 200);
    const bool ascii = fm == F::Ascii || fm == F::ShortAscii || fm == F::Nmea;
    const size_t from = ascii ? 1 : 0;
    const size_t to = ascii ? m.size() - (fm == F::Nmea ? 5 : 11) : m.size(); // covered bytes (the binary checksum too)
    if (to <= from) { return; }
    std::string c = m;
    const size_t p = from + rng.Below(to - from);
    const char x = static_cast<char>(rng.Chance(0.5) ? 1 << rng.Below(8) : 1 + rng.Below(255));
    c[p] = static_cast<char>(c[p] ^ x);
    Driver d(*f);
    d.Write(c + std::string(40, ' '));
    d.Drain(kBig);
    for (auto& e : d.ev) { VT_CHECK(!(e.off == 0 && e.len == m.size()), "corrupted-message-accepted", f->name << " byte " << p << " xor " << int(x) << ": " << vt::Esc(c)); }
    vt::Eval();
    vt::Count(std::string("corrupted_") + raw::Name(fm));
    vt::Distinct(vt::HashBytes(c.data(), c.size(), vt::HashStr(f->name)));
}

// Output sizes from zero up, exact heap buffers; the messages are the same as with a large buffer.
VT_SUITE(bounds)
{
    auto mk = rng;
    auto a = MakeFramer(mk);
    auto mk2 = rng;
    auto b = MakeFramer(mk2);
    rng = mk;
    const bool hostile = rng.Chance(0.5);
    const std::string s = hostile ? Hostile(rng, a->formats, 1 + rng.Below(8)) : [&] { std::vector<Expect> ex; return WellFormed(rng, a->formats, ex, 1 + rng.Below(5)); }();
    Driver d(*a), e(*b);
    Chunked(rng, d, s, 0, kBig);
    const bool tiny = rng.Chance(0.5);
    const bool rep = rng.Chance(0.8);
    b->Report(rep);
    e.report = rep;
    Chunked(rng, e, s, s.size() > 4000 ? 0 : rng.Chance(0.5) ? 0 : 4, [&] { return static_cast<uint32_t>(tiny ? rng.Below(16) : rng.Chance(0.2) ? rng.Below(3) : rng.Below(500)); });
    // The OEM framer rejects a damaged text candidate together with whatever it holds. Handing it out in pieces makes it look again at
    // the rest, so a small buffer may uncover further (valid) messages in a damaged stream, but it never loses or alters one.
    const bool more = hostile && std::find(a->formats.begin(), a->formats.end(), F::PropBin) != a->formats.end(); // uses the OEM framer
    bool same = more || d.ev.size() == e.ev.size();
    size_t k = 0;
    for (size_t i = 0; same && i < d.ev.size(); ++i, ++k)
    {
        while (more && k < e.ev.size() && e.ev[k].off < d.ev[i].off) { ++k; }
        same = k < e.ev.size() && d.ev[i].off == e.ev[k].off && d.ev[i].len == e.ev[k].len && d.ev[i].fmt == e.ev[k].fmt;
    }
    VT_CHECK(same, "buffer-size-changes-messages", a->name << ": large " << Show(d.ev) << " small " << Show(e.ev) << " stream " << vt::Esc(s, 1500));
    d.Finish(77);
    e.Finish(1 + rng.Below(9));
    vt::Eval();
    vt::Distinct(vt::HashBytes(s.data(), s.size(), vt::HashStr(a->name)));
    vt::Sample(a->name + (tiny ? " tiny " : " small ") + Show(e.ev));
}

// A message exactly as large as the buffer is delivered, one byte less is buffer-full and leaves it deliverable.
VT_SUITE(fit)
{
    raw::Gen g(rng);
    auto f = MakeFramer(rng);
    const F fm = f->formats[rng.Below(f->formats.size())];
    const std::string m = g.Make(fm, rng.Chance(0.05) ? 32768 : 300);
    Driver d(*f);
    d.Write(m + "  ");
    const uint32_t n = static_cast<uint32_t>(m.size());
    for (int k = static_cast<int>(rng.Below(4)); k > 0; --k)
    {
        const uint32_t sz = rng.Chance(0.5) ? n - 1 : static_cast<uint32_t>(rng.Below(n));
        STATUS st = d.Get(sz);
        VT_CHECK(st == STATUS::BUFFER_FULL, "undersized-not-full", f->name << " " << raw::Name(fm) << " status " << static_cast<int>(st) << " size " << sz << " of " << n << " " << vt::Esc(m));
    }
    STATUS st = d.Get(n + static_cast<uint32_t>(rng.Chance(0.5) ? 0 : rng.Below(50)));
    VT_CHECK(st == STATUS::SUCCESS && d.ev.size() == 1 && d.ev[0].len == n && d.ev[0].fmt == fm, "exact-fit-refused", f->name << " " << raw::Name(fm) << " status " << static_cast<int>(st) << " " << vt::Esc(m));
    VT_CHECK(f->Get(nullptr, 100, *std::make_unique<HEADER_FORMAT>(), *std::make_unique<uint32_t>(), *std::make_unique<bool>(), *std::make_unique<std::string>()) == STATUS::NULL_PROVIDED || f->name[0] == 'M', "null-buffer", f->name);
    d.Finish(10);
    vt::Eval();
    vt::Distinct(vt::HashBytes(m.data(), m.size(), vt::HashStr(f->name)));
}

// Payload-only option of the all-format framer.
VT_SUITE(payload)
{
    auto f = MakeFramer(rng, rng.Chance(0.7) ? 5 : 7);
    f->Payload(true);
    std::vector<Expect> ex;
    const std::string s = rng.Chance(0.7) ? WellFormed(rng, f->formats, ex, 1 + rng.Below(10)) : Hostile(rng, f->formats, 1 + rng.Below(10));
    Driver d(*f);
    d.payload = true;
    const bool small = rng.Chance(0.5);
    Chunked(rng, d, s, s.size() > 4000 ? 0 : static_cast<int>(rng.Below(5)), [&] { return small ? static_cast<uint32_t>(rng.Below(300)) : 40000U; });
    if (!ex.empty())
    {
        VT_CHECK(ex.size() == d.ev.size(), "payload-messages", f->name << " expected " << ex.size() << " got " << Show(d.ev));
        for (size_t i = 0; i < ex.size(); ++i) { VT_CHECK(ex[i].off == d.ev[i].off && ex[i].len == d.ev[i].len && ex[i].fmt == d.ev[i].fmt, "payload-messages", Show(d.ev)); }
    }
    d.Finish(50);
    vt::Eval();
    vt::Count("messages", d.ev.size());
    vt::Distinct(vt::HashBytes(s.data(), s.size()));
}

// Framer manager: framer identity, agreement with the individual framers, per-framer access.
VT_SUITE(manager)
{
    auto f = MakeManager(rng);
    auto& m = *static_cast<Manager*>(f.get());
    const bool hasOem = std::find(m.names.begin(), m.names.end(), "OEM") != m.names.end();
    for (auto& n : m.names)
    {
        FramerEntry* e = m.m.GetFramerEntry(n);
        VT_CHECK(e != nullptr && e->framerName == n && e->framerId == FramerManager::GetFramerId(n) && e->framerInstance && e->metadataInstance.get() == m.m.GetMetaData(n), "manager-entry", n);
    }
    for (auto& [n, fs] : kNames)
    {
        if (std::find(m.names.begin(), m.names.end(), n) == m.names.end()) { VT_CHECK(m.m.GetFramerEntry(n) == nullptr && m.m.GetMetaData(n) == nullptr, "manager-unselected-entry", n); }
    }
    // unselected formats are noise as long as they hold no sync byte of a selected one
    std::vector<Expect> ex;
    std::string s;
    raw::Gen g(rng);
    const std::string sync = SyncSet(m.formats);
    static const std::vector<F> all = {F::Ascii, F::ShortAscii, F::Abb, F::AbbResp, F::Bin, F::ShortBin, F::Nmea};
    size_t unselected = 0;
    for (size_t i = 1 + rng.Below(12); i > 0; --i)
    {
        const F fm = rng.Chance(0.3) ? all[rng.Below(all.size())] : m.formats[rng.Below(m.formats.size())];
        if (std::find(m.formats.begin(), m.formats.end(), fm) != m.formats.end())
        {
            std::string x = g.Make(fm, 400);
            ex.push_back({fm, s.size(), x.size()});
            s += x;
        }
        else
        {
            std::string x;
            int tries = 0;
            do { x = g.Make(fm, 60, sync); } while (x.find_first_of(sync) != std::string::npos && ++tries < 50);
            if (x.find_first_of(sync) == std::string::npos) { s += x; ++unselected; }
        }
    }
    s += "   ";
    Driver d(m);
    // a deterministic extra: resets at message boundaries change nothing
    size_t p = 0;
    while (p < s.size())
    {
        size_t n = std::min<size_t>(s.size() - p, rng.Chance(0.3) ? s.size() : 1 + rng.Below(60));
        d.Write(std::string_view(s).substr(p, n));
        p += n;
        d.Drain(kBig);
        if (rng.Chance(0.1)) { m.m.ResetAllFramerStates(); vt::Count("resets"); }
    }
    VT_CHECK(ex.size() == d.ev.size(), "manager-messages", m.name << " expected " << ex.size() << " got " << Show(d.ev) << " " << vt::Esc(s, 2000));
    for (size_t i = 0; i < ex.size(); ++i)
    {
        VT_CHECK(ex[i].off == d.ev[i].off && ex[i].len == d.ev[i].len && ex[i].fmt == d.ev[i].fmt, "manager-message-differs", m.name << " #" << i << " got " << Show(d.ev));
        bool ok = hasOem && d.ev[i].framer == "OEM";
        for (auto& [n, fs] : kNames) { ok = ok || (n == d.ev[i].framer && std::find(fs.begin(), fs.end(), ex[i].fmt) != fs.end()); }
        VT_CHECK(ok, "manager-wrong-framer", m.name << " " << raw::Name(ex[i].fmt) << " attributed to " << d.ev[i].framer);
    }
    d.Finish(1 + rng.Below(50));
    vt::Eval();
    vt::Count("messages", ex.size());
    vt::Count("unselected_messages", unselected);
    vt::Distinct(vt::HashBytes(s.data(), s.size(), vt::HashStr(m.name)));
    vt::Sample(m.name + " " + Show(d.ev));
}

// For a hostile stream a manager over one framer delivers what that framer delivers on its own.
VT_SUITE(manager_single)
{
    const int k = static_cast<int>(rng.Below(6));
    auto mk = rng;
    auto a = MakeFramer(mk, k == 5 ? 5 : k);
    rng = mk;
    static const char* nm[] = {"OEM_ASCII", "OEM_ASCII_SHORT", "OEM_ABB_ASCII", "OEM_BINARY", "OEM_BINARY_SHORT", "OEM"};
    Manager b({nm[k]});
    const std::string s = Hostile(rng, a->formats, 1 + rng.Below(12));
    Driver d(*a), e(b);
    Chunked(rng, d, s, 0, kBig);
    Chunked(rng, e, s, s.size() > 4000 ? 0 : static_cast<int>(rng.Below(5)), kBig);
    bool same = d.ev.size() == e.ev.size();
    for (size_t i = 0; same && i < d.ev.size(); ++i) { same = d.ev[i].off == e.ev[i].off && d.ev[i].len == e.ev[i].len && d.ev[i].fmt == e.ev[i].fmt; }
    VT_CHECK(same, "manager-differs-from-framer", nm[k] << ": framer " << Show(d.ev) << " manager " << Show(e.ev) << " stream " << vt::Esc(s, 1500));
    d.Finish(100);
    e.Finish(100);
    vt::Eval();
    vt::Count("messages", d.ev.size());
    vt::Distinct(vt::HashBytes(s.data(), s.size(), k));
}
