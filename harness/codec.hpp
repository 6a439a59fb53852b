// Shared by the codec harnesses: a generated database loaded into the library, headers, and field-by-field comparison through the public accessors.
#pragma once
#include "model.hpp"
#include "rawgen.hpp"
#include <memory>
#include <novatel_edie/decoders/common/json_db_reader.hpp>
#include <novatel_edie/decoders/oem/encoder.hpp>
#include <novatel_edie/decoders/oem/header_decoder.hpp>
#include <novatel_edie/decoders/oem/message_decoder.hpp>

namespace cx {
using namespace novatel::edie;
using m::Body;
using m::DbM;
using m::FieldM;
using m::K;
using m::T;
using m::Val;
using vt::Rng;

struct Ctx
{
    DbM db;
    MessageDatabase::Ptr p;
    m::NameOf nm;
};
inline m::NameOf MakeNameOf(const DbM& db)
{
    return [&db](uint32_t v) {
        const auto* mm = db.Msg(v & 0xFFFF);
        std::string s = mm ? mm->name : "UNKNOWN";
        uint32_t fmt = (v >> 21) & 3, sib = (v >> 16) & 31, resp = (v >> 23) & 1;
        if (resp) { s += "R"; }
        else if (fmt == 0) { s += "B"; }
        else if (fmt == 1) { s += "A"; }
        if (sib) { s += "_" + std::to_string(sib); }
        return s;
    };
}
inline std::unique_ptr<Ctx> MakeCtx(DbM db)
{
    auto c = std::make_unique<Ctx>();
    c->db = std::move(db);
    c->p = ParseJsonDb(m::DbJson(c->db).dump());
    c->nm = MakeNameOf(c->db);
    return c;
}
inline std::unique_ptr<Ctx> MakeCtx(Rng& r, const m::GenOpt& o, int n = 3) { return MakeCtx(m::GenDb(r, o, n)); }

inline std::vector<uint32_t> MsgIdValues(const DbM& db)
{
    std::vector<uint32_t> v;
    for (auto& x : db.msgs)
    {
        v.push_back(x.id | (2U << 21));
        v.push_back(x.id);
        v.push_back(x.id | (1U << 21) | (7U << 16));
        v.push_back(x.id | (31U << 16));
    }
    return v;
}

// ---------------------------------------------------------------- headers
struct Hdr
{
    uint16_t id = 0;
    uint8_t sib = 0;
    bool resp = false;
    uint32_t port = 32;
    uint16_t seq = 0;
    uint8_t idle = 0;
    uint32_t ts = 180;
    uint16_t week = 2000;
    uint32_t ms = 0;
    uint32_t rx = 0, defcrc = 0;
    uint16_t sw = 0;
};
inline Hdr GenHdr(Rng& r, const m::DbM& db, uint16_t id, uint32_t defcrc)
{
    Hdr h;
    h.id = id;
    h.sib = r.Chance(0.5) ? 0 : static_cast<uint8_t>(r.Below(32));
    const auto* ports = db.Enum("PortAddress");
    h.port = ports->v[r.Below(ports->v.size())].first;
    h.seq = static_cast<uint16_t>(r.Chance(0.5) ? 0 : r.Next());
    h.idle = static_cast<uint8_t>(r.Below(201));
    const auto* ts = db.Enum("GPSTimeStatus");
    h.ts = ts->v[r.Below(ts->v.size())].first;
    h.week = static_cast<uint16_t>(r.Chance(0.8) ? r.Below(4096) : r.Next());
    h.ms = static_cast<uint32_t>(r.Chance(0.9) ? r.Below(604800000) : r.PickOf({0U, 604799999U, 4294967295U}));
    h.rx = static_cast<uint32_t>(r.Next());
    h.defcrc = defcrc;
    h.sw = static_cast<uint16_t>(r.Next());
    return h;
}
inline oem::IntermediateHeader ToInter(const Hdr& h, MESSAGE_FORMAT fmt = MESSAGE_FORMAT::BINARY)
{
    oem::IntermediateHeader i;
    i.usMessageId = h.id;
    i.ucMessageType = PackMsgType(h.sib, static_cast<uint32_t>(fmt), h.resp ? 1 : 0);
    i.uiPortAddress = h.port;
    i.usSequence = h.seq;
    i.ucIdleTime = h.idle;
    i.uiTimeStatus = h.ts;
    i.usWeek = h.week;
    i.dMilliseconds = h.ms;
    i.uiReceiverStatus = h.rx;
    i.uiMessageDefinitionCrc = h.defcrc;
    i.usReceiverSwVersion = h.sw;
    return i;
}
inline void FillMeta(oem::MetaDataStruct& md, const Hdr& h, const std::string& name, HEADER_FORMAT f, size_t bodyLen)
{
    md.eFormat = f;
    md.usMessageId = h.id;
    md.messageName = name;
    md.uiMessageCrc = h.defcrc;
    md.bResponse = h.resp;
    md.uiBinaryMsgLength = static_cast<uint32_t>(bodyLen);
    md.uiLength = static_cast<uint32_t>(bodyLen);
    md.uiHeaderLength = 0;
}

// ---------------------------------------------------------------- reading back
template <typename R> uint64_t ReadElem(const R& rec, const BaseField& d, const FieldM& f, size_t i)
{
    if (f.kind == K::Enum)
    {
        switch (f.size)
        {
        case 1: return static_cast<uint8_t>(rec.template GetFieldValue<int8_t>(d));
        case 2: return static_cast<uint16_t>(rec.template GetFieldValue<int16_t>(d));
        default: return static_cast<uint32_t>(rec.template GetFieldValue<int32_t>(d));
        }
    }
    switch (f.t)
    {
    case T::BOOL: return rec.template GetFieldValue<bool>(d, i) ? 1 : 0;
    case T::CHAR: return static_cast<uint8_t>(rec.template GetFieldValue<int8_t>(d, i));
    case T::UCHAR: case T::HEXBYTE: return rec.template GetFieldValue<uint8_t>(d, i);
    case T::SHORT: return static_cast<uint16_t>(rec.template GetFieldValue<int16_t>(d, i));
    case T::USHORT: return rec.template GetFieldValue<uint16_t>(d, i);
    case T::INT: case T::LONG: return static_cast<uint32_t>(rec.template GetFieldValue<int32_t>(d, i));
    case T::UINT: case T::ULONG: case T::SATELLITEID: return rec.template GetFieldValue<uint32_t>(d, i);
    case T::LONGLONG: return static_cast<uint64_t>(rec.template GetFieldValue<int64_t>(d, i));
    case T::ULONGLONG: return rec.template GetFieldValue<uint64_t>(d, i);
    case T::FLOAT: { float x = rec.template GetFieldValue<float>(d, i); uint32_t u; memcpy(&u, &x, 4); return u; }
    case T::DOUBLE: { double x = rec.template GetFieldValue<double>(d, i); uint64_t u; memcpy(&u, &x, 8); return u; }
    }
    return 0;
}
template <typename F> void WithType(const FieldM& f, F&& fn)
{
    switch (f.t)
    {
    case T::BOOL: fn(bool{}); break;
    case T::CHAR: fn(int8_t{}); break;
    case T::UCHAR: case T::HEXBYTE: fn(uint8_t{}); break;
    case T::SHORT: fn(int16_t{}); break;
    case T::USHORT: fn(uint16_t{}); break;
    case T::INT: case T::LONG: fn(int32_t{}); break;
    case T::UINT: case T::ULONG: case T::SATELLITEID: fn(uint32_t{}); break;
    case T::LONGLONG: fn(int64_t{}); break;
    case T::ULONGLONG: fn(uint64_t{}); break;
    case T::FLOAT: fn(float{}); break;
    case T::DOUBLE: fn(double{}); break;
    }
}
//! How an element compares: exactly, or as its text allows (values that went through a textual form).
using ElemEq = std::function<bool(const FieldM&, uint64_t want, uint64_t got)>;
inline bool ExactEq(const FieldM& f, uint64_t w, uint64_t g) { return f.t == T::BOOL && f.kind != K::Enum ? ((w & 0xFF) != 0) == (g != 0) : w == g; }

inline size_t VarSize(const FieldValueVariant& v)
{
    return std::visit([](const auto& x) -> size_t {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_arithmetic_v<X>) { return 1; }
        else { return x.size(); }
    }, v);
}
template <typename R> std::string Compare(const R& rec, const FieldInfo& fi, const std::vector<FieldM>& fs, const Body& b, const ElemEq& eq, const std::string& path = "")
{
    if (fi.messageOrderedFields.size() != fs.size()) { return path + ": definition has " + std::to_string(fi.messageOrderedFields.size()) + " fields"; }
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const auto& f = fs[i];
        const auto& v = b[i];
        const BaseField& d = *fi.messageOrderedFields[i];
        std::string p = path + "/" + f.name + "(" + std::to_string(static_cast<int>(f.kind)) + " " + m::TName(f.t) + std::to_string(f.size) + " " + f.Conv() + ")";
        if (d.name != f.name) { return p + ": definition name " + d.name; }
        try
        {
            switch (f.kind)
            {
            case K::Simple: case K::Enum: {
                uint64_t g = ReadElem(rec, d, f, 0);
                if (!eq(f, v.e[0], g)) { return p + ": want " + m::Fmt("%llx", (unsigned long long)v.e[0]) + " got " + m::Fmt("%llx", (unsigned long long)g); }
                break;
            }
            case K::Fixed:
                for (size_t k = 0; k < v.e.size(); ++k)
                {
                    uint64_t g = ReadElem(rec, d, f, k);
                    if (!eq(f, v.e[k], g)) { return p + "[" + std::to_string(k) + "]: want " + m::Fmt("%llx", (unsigned long long)v.e[k]) + " got " + m::Fmt("%llx", (unsigned long long)g); }
                }
                break;
            case K::Var: {
                size_t n = v.e.size();
                for (size_t k = 0; k < n; ++k)
                {
                    uint64_t g = ReadElem(rec, d, f, k);
                    if (!eq(f, v.e[k], g)) { return p + "[" + std::to_string(k) + "]: want " + m::Fmt("%llx", (unsigned long long)v.e[k]) + " got " + m::Fmt("%llx", (unsigned long long)g); }
                }
                bool more = true;
                try { ReadElem(rec, d, f, n); }
                catch (const std::exception&) { more = false; }
                if (more) { return p + ": has an element beyond its " + std::to_string(n); }
                break;
            }
            case K::Str: {
                std::string g;
                if constexpr (std::is_same_v<R, FieldArrayRecordView>) { g = rec.template GetFieldValue<std::string>(d); }
                else { g = rec.template GetFieldValue<std::string>(d); }
                size_t z = g.find('\0');
                if (z != std::string::npos && g.find_first_not_of('\0', z) == std::string::npos) { g.resize(z); }
                if (g != v.s) { return p + ": want \"" + vt::Esc(v.s) + "\" got \"" + vt::Esc(g) + "\""; }
                break;
            }
            case K::Arr: {
                const auto* fd = dynamic_cast<const FieldArrayField*>(&d);
                auto rows = [&](const auto& a) -> std::string {
                    if (a.size() != v.recs.size()) { return p + ": want " + std::to_string(v.recs.size()) + " records, got " + std::to_string(a.size()); }
                    for (size_t k = 0; k < v.recs.size(); ++k)
                    {
                        std::string e = Compare(a[k], *fd->fieldInfo, f.sub, v.recs[k], eq, p + "[" + std::to_string(k) + "]");
                        if (!e.empty()) { return e; }
                    }
                    return "";
                };
                std::string e;
                if constexpr (std::is_same_v<R, CompositeField>)
                {
                    e = rows(rec.template GetFieldValue<FieldArray>(d));
                    if (!e.empty()) { return e; }
                }
                else // the unified view does not nest: use the storage types
                {
                    try { e = rows(rec.template GetFieldValue<CompositeFieldArray>(d)); }
                    catch (const std::bad_variant_access&) { e = rows(rec.template GetFieldValue<FlatFieldArray>(d)); }
                    if (!e.empty()) { return e; }
                }
                break;
            }
            }
        }
        catch (const std::exception& e)
        {
            return p + ": accessor threw " + e.what();
        }
    }
    return "";
}

// ---------------------------------------------------------------- running the library
struct Enc
{
    STATUS st = STATUS::UNKNOWN;
    std::string msg, header, body;
    std::string err; // inconsistency of the reported pointers
};
inline Enc Encode(oem::Encoder& e, const oem::IntermediateHeader& h, const CompositeField& b, HEADER_FORMAT hf, ENCODE_FORMAT ef, size_t cap, unsigned char fill = 0xA5)
{
    Enc r;
    std::unique_ptr<unsigned char[]> buf(new unsigned char[cap]);
    memset(buf.get(), fill, cap);
    unsigned char* p = buf.get();
    MessageDataStruct md;
    r.st = e.Encode(&p, static_cast<uint32_t>(cap), h, b, md, hf, ef);
    if (r.st != STATUS::SUCCESS) { return r; }
    auto in = [&](const unsigned char* q, uint32_t n) { return q >= buf.get() && n <= cap && q + n <= buf.get() + cap; };
    if (md.pucMessage != buf.get()) { r.err = "message does not start at the buffer"; return r; }
    if (!in(md.pucMessage, md.uiMessageLength) || !in(md.pucMessageHeader, md.uiMessageHeaderLength) || !in(md.pucMessageBody, md.uiMessageBodyLength)) { r.err = "reported range outside the buffer"; return r; }
    if (p != buf.get()) { r.err = "caller's pointer moved"; return r; }
    auto str = [](const unsigned char* q, uint32_t n) { return std::string(reinterpret_cast<const char*>(q), n); };
    r.msg = str(md.pucMessage, md.uiMessageLength);
    r.header = str(md.pucMessageHeader, md.uiMessageHeaderLength);
    r.body = str(md.pucMessageBody, md.uiMessageBodyLength);
    return r;
}
//! Independent renderings of headers.
inline std::string EnumName(const DbM& db, const char* en, uint32_t v)
{
    for (auto& [x, n] : db.Enum(en)->v) { if (x == v) { return n; } }
    return "UNKNOWN";
}
inline std::string HdrName(const DbM& db, const Hdr& h)
{
    const auto* mm = db.Msg(h.id);
    return mm ? mm->name : EnumName(db, "Commands", h.id);
}
inline std::string Sib(const Hdr& h) { return h.sib ? "_" + std::to_string(h.sib) : ""; }
inline std::string Secs(uint32_t ms) { return m::Fmt("%u.%03u", ms / 1000, ms % 1000); }
inline std::string AsciiHdr(const DbM& db, const Hdr& h, bool brief)
{
    std::string n = HdrName(db, h) + (h.resp ? "R" : "A") + Sib(h);
    if (brief) { return "%" + n + "," + std::to_string(h.week) + "," + Secs(h.ms) + ";"; }
    return "#" + n + "," + EnumName(db, "PortAddress", h.port) + "," + std::to_string(h.seq) + "," + m::Fmt("%u.%u", h.idle / 2, h.idle % 2 * 5) + "," + EnumName(db, "GPSTimeStatus", h.ts) + "," + std::to_string(h.week) + "," + Secs(h.ms) + "," + m::Fmt("%08x", h.rx) + "," + m::Fmt("%04x", h.defcrc) + "," + std::to_string(h.sw) + ";";
}
inline std::string AbbHdr(const DbM& db, const Hdr& h, bool brief)
{
    std::string n = HdrName(db, h) + Sib(h);
    if (brief) { return "<" + n + " " + std::to_string(h.week) + " " + Secs(h.ms) + "\r\n"; }
    return "<" + n + " " + EnumName(db, "PortAddress", h.port) + " " + std::to_string(h.seq) + " " + m::Fmt("%u.%u", h.idle / 2, h.idle % 2 * 5) + " " + EnumName(db, "GPSTimeStatus", h.ts) + " " + std::to_string(h.week) + " " + Secs(h.ms) + " " + m::Fmt("%08x", h.rx) + " " + m::Fmt("%04x", h.defcrc) + " " + std::to_string(h.sw) + "\r\n";
}
inline std::string BinHdr(const Hdr& h, bool brief, size_t bodyLen)
{
    if (brief)
    {
        std::string s("\xAA\x44\x13", 3);
        s += static_cast<char>(bodyLen);
        return s + raw::LE(h.id, 2) + raw::LE(h.week, 2) + raw::LE(h.ms, 4);
    }
    return raw::BinHeader(0x44, h.id, static_cast<uint8_t>(h.sib | (h.resp ? 0x80 : 0)), static_cast<uint8_t>(h.port), static_cast<uint16_t>(bodyLen), h.seq, h.idle, static_cast<uint8_t>(h.ts), h.week, h.ms, h.rx, static_cast<uint16_t>(h.defcrc), h.sw);
}
//! Compares a JSON header object with a header; returns an error text or "".
inline std::string JsonHdr(const DbM& db, const Hdr& h, bool brief, const nlohmann::json& j)
{
    nlohmann::json w;
    w["message"] = HdrName(db, h) + Sib(h);
    w["id"] = h.id;
    w["week"] = h.week;
    if (!brief)
    {
        w["port"] = EnumName(db, "PortAddress", h.port);
        w["sequence_num"] = h.seq;
        w["percent_idle_time"] = h.idle * 0.5;
        w["time_status"] = EnumName(db, "GPSTimeStatus", h.ts);
        w["receiver_status"] = h.rx;
        w["HEADER_reserved1"] = h.defcrc;
        w["receiver_sw_version"] = h.sw;
    }
    if (!j.is_object() || !j.contains("seconds") || !j["seconds"].is_number() || std::fabs(j["seconds"].get<double>() - h.ms / 1000.0) > 1e-6) { return "seconds in " + j.dump(); }
    auto g = j;
    g.erase("seconds");
    return g == w ? "" : "header " + j.dump() + " want " + w.dump();
}
struct Dec
{
    STATUS st = STATUS::UNKNOWN;
    CompositeField body;
    oem::MetaDataStruct md;
};
inline std::string Describe(const m::MsgM& mm, const DbM& db)
{
    nlohmann::ordered_json a = nlohmann::ordered_json::array();
    for (auto& d : mm.defs) { for (auto& f : d.f) { a.push_back(m::FieldJson(f, db)); } }
    return a.dump();
}
} // namespace cx
