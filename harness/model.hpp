// Independent model of message definitions, message values and their binary / ASCII / abbreviated / JSON renderings.
// Nothing in here calls the library: layouts and texts are written from the documented formats.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <functional>
#include <nlohmann/json.hpp>
#include <optional>
#include <string>
#include <vector>

#include "vt.hpp"

namespace m {
using vt::Rng;

enum class K { Simple, Enum, Fixed, Var, Str, Arr };
enum class T { BOOL, CHAR, UCHAR, SHORT, USHORT, INT, UINT, LONG, ULONG, LONGLONG, ULONGLONG, FLOAT, DOUBLE, HEXBYTE, SATELLITEID };
inline const char* TName(T t)
{
    static const char* n[] = {"BOOL", "CHAR", "UCHAR", "SHORT", "USHORT", "INT", "UINT", "LONG", "ULONG", "LONGLONG", "ULONGLONG", "FLOAT", "DOUBLE", "HEXBYTE", "SATELLITEID"};
    return n[static_cast<int>(t)];
}
inline uint16_t TSize(T t)
{
    static const uint16_t n[] = {4, 1, 1, 2, 2, 4, 4, 4, 4, 8, 8, 4, 8, 1, 4};
    return n[static_cast<int>(t)];
}
inline bool TSigned(T t) { return t == T::CHAR || t == T::SHORT || t == T::INT || t == T::LONG || t == T::LONGLONG; }

struct EnumM { std::string id, name; std::vector<std::pair<uint32_t, std::string>> v; std::vector<std::string> desc; };

struct FieldM
{
    K kind = K::Simple;
    std::string name;
    T t = T::UINT;
    uint16_t size = 4;    // dataType.length (element size; for Arr the declared alignment size)
    std::string alpha;    // conversion letters
    std::optional<int> width, prec;
    int enumIdx = -1;
    uint32_t arrLen = 0;
    uint8_t lenSize = 4;
    std::string lenRef;
    std::vector<FieldM> sub;
    bool explicitLenSize = true;

    [[nodiscard]] std::string Conv() const
    {
        if (alpha.empty()) { return ""; }
        std::string r = "%";
        if (width) { r += std::to_string(*width); }
        if (prec) { r += "." + std::to_string(*prec); }
        return r + alpha;
    }
    [[nodiscard]] bool IsVar() const { return kind == K::Var || kind == K::Str || kind == K::Arr; }
    [[nodiscard]] bool IsString() const { return kind == K::Str || alpha == "s" || alpha == "S"; }
    [[nodiscard]] bool IsCsv() const { return !IsString() && alpha != "Z" && alpha != "P"; }
};
struct DefM { uint32_t crc = 0; std::vector<FieldM> f; };
struct MsgM { uint32_t id = 0; std::string oid, name; std::vector<DefM> defs; uint32_t latest = 0; const DefM& Latest() const { for (auto& d : defs) { if (d.crc == latest) { return d; } } return defs[0]; } };
struct DbM
{
    std::string family = "OEM", subset = "full", version = "1.0.0";
    std::vector<EnumM> enums;
    std::vector<MsgM> msgs;
    const EnumM* Enum(const std::string& n) const { for (auto& e : enums) { if (e.name == n) { return &e; } } return nullptr; }
    const MsgM* Msg(uint32_t id) const { for (auto& x : msgs) { if (x.id == id) { return &x; } } return nullptr; }
};

inline bool HasVar(const std::vector<FieldM>& fs) { for (auto& f : fs) { if (f.IsVar()) { return true; } } return false; }

// ---------------------------------------------------------------- database document
inline nlohmann::ordered_json FieldJson(const FieldM& f, const DbM& db)
{
    nlohmann::ordered_json j;
    j["name"] = f.name;
    j["description"] = nullptr;
    static const char* kn[] = {"SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "STRING", "FIELD_ARRAY"};
    j["type"] = kn[static_cast<int>(f.kind)];
    j["dataType"] = {{"name", f.kind == K::Arr ? "UNKNOWN" : TName(f.t)}, {"length", f.size}, {"description", ""}};
    if (f.alpha.empty()) { j["conversionString"] = nullptr; }
    else { j["conversionString"] = f.Conv(); }
    if (f.kind == K::Enum) { j["enumID"] = db.enums[f.enumIdx].id; }
    if (f.kind == K::Fixed || f.kind == K::Var || f.kind == K::Str || f.kind == K::Arr) { j["arrayLength"] = f.arrLen; }
    if (f.kind == K::Var || f.kind == K::Arr)
    {
        if (f.explicitLenSize || f.lenSize != 4) { j["arrayLengthFieldSize"] = f.lenSize; }
        if (!f.lenRef.empty()) { j["arrayLengthRef"] = f.lenRef; }
    }
    if (f.kind == K::Arr)
    {
        j["fields"] = nlohmann::ordered_json::array();
        for (auto& s : f.sub) { j["fields"].push_back(FieldJson(s, db)); }
    }
    return j;
}
inline nlohmann::ordered_json DbJson(const DbM& db)
{
    nlohmann::ordered_json r;
    r["meta"] = {{"subset", db.subset}, {"version", db.version}, {"messageFamily", db.family}};
    r["messages"] = nlohmann::ordered_json::array();
    for (auto& mm : db.msgs)
    {
        nlohmann::ordered_json j;
        j["_id"] = mm.oid;
        j["messageID"] = mm.id;
        j["name"] = mm.name;
        j["description"] = mm.name + " message";
        j["latestMsgDefCrc"] = std::to_string(mm.latest);
        j["fields"] = nlohmann::ordered_json::object();
        for (auto& d : mm.defs)
        {
            auto a = nlohmann::ordered_json::array();
            for (auto& f : d.f) { a.push_back(FieldJson(f, db)); }
            j["fields"][std::to_string(d.crc)] = a;
        }
        r["messages"].push_back(j);
    }
    r["enums"] = nlohmann::ordered_json::array();
    for (auto& e : db.enums)
    {
        nlohmann::ordered_json j;
        j["_id"] = e.id;
        j["name"] = e.name;
        j["enumerators"] = nlohmann::ordered_json::array();
        for (size_t i = 0; i < e.v.size(); ++i) { j["enumerators"].push_back({{"value", e.v[i].first}, {"name", e.v[i].second}, {"description", i < e.desc.size() ? e.desc[i] : ""}}); }
        r["enums"].push_back(j);
    }
    return r;
}

// ---------------------------------------------------------------- generation of definitions
struct GenOpt
{
    bool text = true;    // only conversions whose text can be decoded again
    bool json = true;    // ... in JSON too
    bool floats = true;
    int maxFields = 8, maxDepth = 2;
    bool lenRef = false;
    bool oddRecords = true;
    uint32_t maxArr = 6;
    bool empty = false; // sometimes a message without fields
};

struct ConvE { T t; const char* alpha; bool w; };
inline const std::vector<ConvE>& ScalarConvs()
{
    static const std::vector<ConvE> v = {
        {T::BOOL, "d", 0},     {T::CHAR, "B", 0},     {T::CHAR, "c", 0},    {T::UCHAR, "UB", 0},    {T::UCHAR, "u", 0},      {T::UCHAR, "XB", 0},    {T::UCHAR, "x", 0},     {T::UCHAR, "X", 0},
        {T::UCHAR, "c", 0},    {T::HEXBYTE, "XB", 0}, {T::SHORT, "hd", 0},  {T::USHORT, "hu", 0},   {T::USHORT, "u", 0},     {T::USHORT, "x", 0},    {T::USHORT, "X", 0},    {T::INT, "d", 0},
        {T::INT, "ld", 0},     {T::LONG, "ld", 0},    {T::LONG, "d", 0},    {T::UINT, "u", 0},      {T::UINT, "lu", 0},      {T::UINT, "x", 0},      {T::UINT, "lx", 0},     {T::ULONG, "lu", 0},
        {T::ULONG, "u", 0},    {T::ULONG, "lx", 0},   {T::ULONG, "x", 0},   {T::ULONG, "X", 0},     {T::ULONG, "c", 0},      {T::ULONG, "T", 0},     {T::ULONG, "m", 0},     {T::SATELLITEID, "id", 0},
        {T::LONGLONG, "lld", 0}, {T::ULONGLONG, "llu", 0}, {T::ULONGLONG, "llx", 0}, {T::ULONGLONG, "x", 0}, {T::ULONGLONG, "X", 0}, {T::FLOAT, "f", 1}, {T::FLOAT, "e", 1},   {T::FLOAT, "g", 1},
        {T::FLOAT, "k", 1},    {T::DOUBLE, "lf", 1},  {T::DOUBLE, "le", 1}, {T::DOUBLE, "lg", 1},   {T::DOUBLE, "lk", 1},    {T::DOUBLE, "f", 1},    {T::DOUBLE, "e", 1}};
    return v;
}
inline void PickConv(Rng& r, FieldM& f, const GenOpt& o)
{
    for (;;)
    {
        const auto& c = ScalarConvs()[r.Below(ScalarConvs().size())];
        if (!o.floats && c.w) { continue; }
        f.t = c.t;
        f.alpha = c.alpha;
        f.size = TSize(c.t);
        if (c.w)
        {
            if (r.Chance(0.7)) { f.width = static_cast<int>(r.PickOf({1, 2, 3, 5, 7, 10, 15, 16, 18, 25})); }
            if (r.Chance(0.8)) { f.prec = static_cast<int>(r.PickOf({1, 2, 3, 6, 9, 12, 17})); }
        }
        return;
    }
}
inline std::vector<FieldM> GenFields(Rng& r, const DbM& db, const GenOpt& o, int depth, int& counter);

inline FieldM GenField(Rng& r, const DbM& db, const GenOpt& o, int depth, int& counter)
{
    FieldM f;
    f.name = "f" + std::to_string(counter++) + (r.Chance(0.2) ? "_x" : "");
    switch (r.Below(depth < o.maxDepth ? 14 : 11))
    {
    case 0: case 1: case 2: case 3: case 4: f.kind = K::Simple; PickConv(r, f, o); break;
    case 5:
        f.kind = K::Enum;
        f.enumIdx = static_cast<int>(r.Below(db.enums.size()));
        f.alpha = "d";
        f.t = r.PickOf({T::ULONG, T::LONG, T::USHORT, T::UCHAR});
        f.size = TSize(f.t);
        break;
    case 6: case 7: case 8:
        f.kind = r.Chance(0.5) ? K::Fixed : K::Var;
        f.arrLen = static_cast<uint32_t>(r.Range(1, o.maxArr));
        if (r.Chance(0.35))
        {
            f.t = r.PickOf({T::CHAR, T::UCHAR, T::HEXBYTE});
            f.size = 1;
            f.alpha = f.t == T::HEXBYTE ? "Z" : f.t == T::UCHAR ? r.PickOf({"s", "P", "Z"}) : r.PickOf({"s", "P"});
            f.arrLen = static_cast<uint32_t>(r.Range(1, o.maxArr * 3));
        }
        else { do { PickConv(r, f, o); } while (f.t == T::BOOL); } // arrays of BOOL: known finding, see suite bool_arrays
        if (f.kind == K::Var) { f.lenSize = static_cast<uint8_t>(r.PickOf({4, 4, 4, 1, 2})); f.explicitLenSize = r.Chance(0.5); }
        break;
    case 9: case 10:
        f.kind = K::Str;
        f.t = T::CHAR;
        f.size = 1;
        f.alpha = "s";
        f.arrLen = static_cast<uint32_t>(r.Range(1, 24));
        break;
    default:
        f.kind = K::Arr;
        f.alpha = "";
        f.arrLen = static_cast<uint32_t>(r.Range(1, o.maxArr));
        f.lenSize = static_cast<uint8_t>(r.PickOf({4, 4, 4, 1, 2}));
        f.explicitLenSize = r.Chance(0.5);
        f.sub = GenFields(r, db, o, depth + 1, counter);
        f.size = static_cast<uint16_t>(r.PickOf({1, 1, 4, 4, 4, 2, 8}));
        break;
    }
    return f;
}
inline std::vector<FieldM> GenFields(Rng& r, const DbM& db, const GenOpt& o, int depth, int& counter)
{
    std::vector<FieldM> v;
    int n = o.empty && depth == 0 && r.Chance(0.05) ? 0 : static_cast<int>(r.Range(1, depth == 0 ? o.maxFields : 4));
    for (int i = 0; i < n; ++i)
    {
        FieldM f = GenField(r, db, o, depth, counter);
        // a length reference: an unsigned count field earlier in the same record
        if (o.lenRef && (f.kind == K::Var || f.kind == K::Arr) && r.Chance(0.3))
        {
            FieldM c;
            c.name = f.name + "_n";
            c.t = r.PickOf({T::UCHAR, T::USHORT, T::ULONG, T::UINT});
            c.size = TSize(c.t);
            c.alpha = "u";
            f.lenRef = c.name;
            v.push_back(c);
            if (r.Chance(0.3)) { FieldM x; x.name = f.name + "_y"; PickConv(r, x, o); v.push_back(x); }
        }
        v.push_back(f);
    }
    return v;
}
inline std::string RandName(Rng& r, const char* alphabet, int lo, int hi)
{
    std::string s;
    std::string_view a(alphabet);
    int n = static_cast<int>(r.Range(lo, hi));
    for (int i = 0; i < n; ++i) { s += a[r.Below(a.size())]; }
    return s;
}
inline EnumM GenEnum(Rng& r, int i, uint32_t maxVal)
{
    EnumM e;
    e.id = "e" + std::to_string(i);
    e.name = "Enum" + std::to_string(i);
    int n = static_cast<int>(r.Range(1, 8));
    std::vector<uint32_t> used;
    for (int k = 0; k < n; ++k)
    {
        uint32_t v = static_cast<uint32_t>(r.Chance(0.6) ? static_cast<uint32_t>(k) : r.Below(k ? maxVal + 1ULL : 128ULL)); // the first fits every size
        bool dup = false;
        for (auto u : used) { dup |= u == v; }
        if (dup) { continue; }
        used.push_back(v);
        e.v.emplace_back(v, "V" + std::to_string(k) + RandName(r, "ABCDEFGH_", 0, 5));
        e.desc.push_back("description " + std::to_string(k));
    }
    return e;
}
//! The enumerations every pipeline needs: ports, time statuses, commands and responses.
inline void AddSystemEnums(DbM& db)
{
    EnumM p{"port-id", "PortAddress", {{0, "NO_PORTS"}, {32, "COM1"}, {33, "COM1_1"}, {64, "COM2"}, {96, "COM3"}, {160, "THISPORT"}, {192, "ALL_PORTS"}, {416, "SPECIAL"}, {1440, "USB1"}, {2976, "ETH1"}, {4000, "ICOM1"}, {65184, "WCOM1"}}, {}};
    EnumM g{"gps-id", "GPSTimeStatus", {{20, "UNKNOWN"}, {60, "APPROXIMATE"}, {80, "COARSEADJUSTING"}, {100, "COARSE"}, {120, "COARSESTEERING"}, {130, "FREEWHEELING"}, {140, "FINEADJUSTING"}, {160, "FINE"}, {170, "FINEBACKUPSTEERING"}, {180, "FINESTEERING"}, {200, "SATTIME"}}, {}};
    EnumM c{"cmd-id", "Commands", {}, {}};
    EnumM s{"resp-id", "Responses", {{0, "ZERO"}, {1, "OK"}, {2, "REQUESTED_LOG_DOES_NOT_EXIST"}, {3, "NOT_ENOUGH_RESOURCES_IN_SYSTEM"}, {5, "INVALID_CHECKSUM"}, {6, "INVALID_MESSAGE"}}, {"", "OK", "Requested log does not exist", "Not enough resources in system", "Invalid checksum", "Message, field = bad"}};
    db.enums.push_back(p);
    db.enums.push_back(g);
    db.enums.push_back(c);
    db.enums.push_back(s);
}
inline DbM GenDb(Rng& r, const GenOpt& o, int nMsgs = 3)
{
    DbM db;
    int ne = static_cast<int>(r.Range(1, 3));
    for (int i = 0; i < ne; ++i) { db.enums.push_back(GenEnum(r, i, i == 0 ? 127 : i == 1 ? 255 : 65535)); }
    DbM gen = db; // enum fields draw from the generic enums only
    AddSystemEnums(db);
    std::vector<uint32_t> ids;
    for (int i = 0; i < nMsgs; ++i)
    {
        MsgM mm;
        for (;;)
        {
            mm.id = static_cast<uint32_t>(r.Range(1, 65535));
            bool dup = mm.id == 140 || mm.id == 43;
            for (auto x : ids) { dup |= x == mm.id; }
            if (!dup) { break; }
        }
        ids.push_back(mm.id);
        mm.oid = "m" + std::to_string(i);
        mm.name = RandName(r, "BCDEFGHJKLMN", 2, 10) + std::string(1, static_cast<char>('0' + i)) + RandName(r, "PQSTUV", 1, 3); // ends in no A, B, R
        int nd = r.Chance(0.3) ? 2 : 1;
        for (int d = 0; d < nd; ++d)
        {
            DefM def;
            def.crc = static_cast<uint32_t>(r.Chance(0.6) ? r.Range(1, 0xFFFF) : r.Range(0x10000, 0xFFFFFFFFLL));
            if (d && def.crc == mm.defs[0].crc) { continue; }
            int counter = 0;
            def.f = GenFields(r, gen, o, 0, counter);
            mm.defs.push_back(def);
        }
        mm.latest = mm.defs[r.Below(mm.defs.size())].crc;
        db.msgs.push_back(mm);
    }
    return db;
}

// ---------------------------------------------------------------- values
struct Val { std::vector<uint64_t> e; std::string s; std::vector<std::vector<Val>> recs; };
using Body = std::vector<Val>;

struct ValOpt
{
    bool text = false;  // printable strings / characters that survive every text format
    bool special = true; // NaN, infinities
    bool knownEnum = false;
    bool full = false;   // all arrays at maximum
    std::vector<uint32_t> msgIds; // for %m
    bool canonBool = false;
    bool ascii = false;  // strings hold ASCII characters only (1..127)
};
inline float GenF(Rng& r, bool special)
{
    switch (r.Below(10))
    {
    case 0: return 0.0F;
    case 1: { uint32_t u = static_cast<uint32_t>(r.Next()); float f; memcpy(&f, &u, 4); if (!special && !std::isfinite(f)) { return 1.5F; } return f; }
    case 2: return static_cast<float>(r.Range(-1000, 1000));
    case 3: return static_cast<float>((r.Unit() - 0.5) * 1e-4);
    case 4: return static_cast<float>((r.Unit() - 0.5) * 1e8);
    case 5: return std::pow(10.0F, static_cast<float>(r.Range(-8, 8)));
    case 6: return -0.0F;
    default: return static_cast<float>((r.Unit() - 0.5) * 400);
    }
}
inline double GenD(Rng& r, bool special)
{
    switch (r.Below(10))
    {
    case 0: return 0.0;
    case 1: { uint64_t u = r.Next(); double f; memcpy(&f, &u, 8); if (!special && !std::isfinite(f)) { return 1.5; } return f; }
    case 2: return static_cast<double>(r.Range(-1000, 1000));
    case 3: return (r.Unit() - 0.5) * 1e-9;
    case 4: return (r.Unit() - 0.5) * 1e17;
    case 5: return std::pow(10.0, static_cast<double>(r.Range(-16, 16)));
    case 6: return -0.0;
    default: return (r.Unit() - 0.5) * 400;
    }
}
inline uint64_t MaskTo(uint64_t v, unsigned size) { return size >= 8 ? v : v & ((1ULL << (8 * size)) - 1); }
inline const char* kSafe = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._-/:;()[]";
inline char SafeChar(Rng& r) { return kSafe[r.Below(strlen(kSafe))]; }

inline uint64_t GenElem(Rng& r, const FieldM& f, const ValOpt& o)
{
    uint64_t v = 0;
    if (f.t == T::FLOAT) { float x = GenF(r, o.special); uint32_t u; memcpy(&u, &x, 4); return u; }
    if (f.t == T::DOUBLE) { double x = GenD(r, o.special); memcpy(&v, &x, 8); return v; }
    if (f.t == T::BOOL) { return o.canonBool || r.Chance(0.8) ? r.Below(2) : MaskTo(r.Next(), 4); }
    if (f.alpha == "c") { return o.text ? static_cast<uint8_t>(SafeChar(r)) : static_cast<uint64_t>(r.Range(1, o.ascii ? 127 : 255)); }
    if (f.alpha == "m" && !o.msgIds.empty() && (o.knownEnum || r.Chance(0.9))) { return o.msgIds[r.Below(o.msgIds.size())]; }
    if (f.alpha == "id")
    {
        if (r.Chance(0.5)) { return r.Below(65536); }
        return r.Below(65536) | (static_cast<uint64_t>(static_cast<uint16_t>(r.Range(-32767, 32767))) << 16);
    }
    switch (r.Below(6))
    {
    case 0: v = 0; break;
    case 1: v = ~0ULL; break;
    case 2: v = r.Below(16); break;
    case 3: v = 1ULL << (8 * f.size - 1); break;
    case 4: v = (1ULL << (8 * f.size - 1)) - 1; break;
    default: v = r.Next(); break;
    }
    return MaskTo(v, f.size);
}
inline Body GenBody(Rng& r, const std::vector<FieldM>& fs, const DbM& db, const ValOpt& o);
inline Val GenVal(Rng& r, const FieldM& f, const DbM& db, const ValOpt& o)
{
    Val v;
    auto count = [&]() { return o.full ? f.arrLen : static_cast<uint32_t>(r.Chance(0.25) ? f.arrLen : r.Below(f.arrLen + 1ULL)); };
    switch (f.kind)
    {
    case K::Simple: v.e.push_back(GenElem(r, f, o)); break;
    case K::Enum: {
        const auto& e = db.enums[f.enumIdx];
        uint64_t x = e.v[r.Below(e.v.size())].first;
        if (!o.knownEnum && r.Chance(0.1)) { x = r.Next(); }
        while (o.knownEnum && x != MaskTo(x, f.size)) { x = e.v[r.Below(e.v.size())].first; }
        v.e.push_back(MaskTo(x, f.size));
        break;
    }
    case K::Fixed: case K::Var: {
        uint32_t n = f.kind == K::Fixed ? f.arrLen : count();
        if (f.alpha == "s" || f.alpha == "P" || f.alpha == "Z")
        {
            for (uint32_t i = 0; i < n; ++i) { v.e.push_back(f.alpha == "Z" ? r.Below(256) : o.text ? static_cast<uint8_t>(SafeChar(r)) : f.alpha == "s" && o.ascii ? r.Below(128) : static_cast<uint8_t>(r.Next())); }
            if (f.alpha == "P" && o.text) { for (size_t i = 1; i < n; ++i) { if (r.Chance(0.4)) { v.e[i] = r.PickOf({0x5C, 0x00, 0x07, 0x7F, 0x80, 0xFF, 0x0D, 0x0A}); } } }
            if (f.alpha == "s" && o.text && n > 0 && r.Chance(0.2)) { v.e[r.Below(n)] = '\\'; }
            if (f.alpha == "s" && r.Chance(0.5)) // shorter content, zero filled
            {
                size_t k = r.Below(n + 1ULL);
                for (size_t i = k; i < n; ++i) { v.e[i] = 0; }
            }
        }
        else { for (uint32_t i = 0; i < n; ++i) { v.e.push_back(GenElem(r, f, o)); } }
        break;
    }
    case K::Str: {
        uint64_t n = o.full ? f.arrLen - 1 : r.Below(f.arrLen);
        for (uint64_t i = 0; i < n; ++i) { v.s += o.text ? (r.Chance(0.1) ? ',' : r.Chance(0.1) ? ' ' : SafeChar(r)) : static_cast<char>(r.Range(1, o.ascii ? 127 : 255)); }
        break;
    }
    case K::Arr: {
        uint32_t n = count();
        for (uint32_t i = 0; i < n; ++i) { v.recs.push_back(GenBody(r, f.sub, db, o)); }
        break;
    }
    }
    return v;
}
inline void FixRefs(const std::vector<FieldM>& fs, Body& b)
{
    for (size_t i = 0; i < fs.size(); ++i)
    {
        if (fs[i].lenRef.empty()) { continue; }
        for (size_t k = 0; k < i; ++k)
        {
            if (fs[k].name == fs[i].lenRef) { b[k].e[0] = fs[i].kind == K::Arr ? b[i].recs.size() : b[i].e.size(); }
        }
    }
}
inline Body GenBody(Rng& r, const std::vector<FieldM>& fs, const DbM& db, const ValOpt& o)
{
    Body b;
    for (auto& f : fs) { b.push_back(GenVal(r, f, db, o)); }
    FixRefs(fs, b);
    return b;
}

// ---------------------------------------------------------------- binary rendering
inline void PutLE(std::string& s, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) { s += static_cast<char>(v >> (8 * i)); } }
inline void AlignTo(std::string& s, size_t start, size_t len)
{
    size_t a = std::min<size_t>(4, len);
    while (a && (s.size() - start) % a) { s += '\0'; }
}
//! flat: records without variable fields are packed with the size the layout of one record takes, without trailing padding.
inline void PutRecord(std::string& out, const std::vector<FieldM>& fs, const Body& b, bool flattened = false);
inline void PutField(std::string& out, size_t start, const FieldM& f, const Val& v, bool flattened)
{
    AlignTo(out, start, f.size);
    switch (f.kind)
    {
    case K::Simple: case K::Enum: PutLE(out, v.e[0], f.size); break;
    case K::Fixed: for (auto x : v.e) { PutLE(out, x, f.size); } break;
    case K::Var:
        if (f.lenRef.empty()) { AlignTo(out, start, f.lenSize); PutLE(out, v.e.size(), f.lenSize); }
        for (auto x : v.e) { PutLE(out, x, f.size); }
        break;
    case K::Str:
        out += v.s;
        out += '\0';
        while ((out.size() - start) % 4) { out += '\0'; }
        break;
    case K::Arr:
        if (f.lenRef.empty()) { AlignTo(out, start, f.lenSize); PutLE(out, v.recs.size(), f.lenSize); }
        if (!HasVar(f.sub)) { for (auto& rec : v.recs) { PutRecord(out, f.sub, rec); } }
        else { for (auto& rec : v.recs) { AlignTo(out, start, f.size); PutRecord(out, f.sub, rec); } }
        break;
    }
    (void)flattened;
}
inline void PutRecord(std::string& out, const std::vector<FieldM>& fs, const Body& b, bool flattened)
{
    size_t start = out.size();
    for (size_t i = 0; i < fs.size(); ++i) { PutField(out, start, fs[i], b[i], flattened); }
}
inline std::string BinaryBody(const std::vector<FieldM>& fs, const Body& b)
{
    std::string s;
    PutRecord(s, fs, b);
    return s;
}

// ---------------------------------------------------------------- text rendering
inline std::string Fmt(const char* f, ...)
{
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
inline int64_t SExt(uint64_t v, unsigned size) { unsigned sh = 64 - 8 * size; return static_cast<int64_t>(v << sh) >> sh; }
inline double AsDouble(const FieldM& f, uint64_t v)
{
    if (f.t == T::FLOAT) { uint32_t u = static_cast<uint32_t>(v); float x; memcpy(&x, &u, 4); return x; }
    double x;
    memcpy(&x, &v, 8);
    return x;
}
inline std::string IntText(const FieldM& f, uint64_t v) { return TSigned(f.t) ? Fmt("%lld", static_cast<long long>(SExt(v, f.size))) : Fmt("%llu", static_cast<unsigned long long>(v)); }

//! The acceptable texts of a floating-point value (two where the fixed/scientific switch sits on a boundary).
inline std::vector<std::string> FloatTexts(const FieldM& f, double x)
{
    auto fixed = [&] { return Fmt("%.*f", f.prec.value_or(6), x); };
    auto sci = [&] { return Fmt("%.*e", f.prec.value_or(6), x); };
    if (f.alpha == "f" || f.alpha == "lf") { return {fixed()}; }
    if (f.alpha == "e" || f.alpha == "le") { return {sci()}; }
    if (!f.width) { return {sci()}; } // %k, %g
    double a = std::fabs(x);
    double hi = std::pow(10.0, *f.width), lo = std::pow(10.0, -*f.width);
    double tiny = f.t == T::FLOAT ? 1.17549435e-38 : 2.2250738585072014e-308;
    if (std::isnan(x)) { return {fixed(), sci()}; }
    std::vector<std::string> r;
    bool nearEdge = std::fabs(a - hi) <= hi * 1e-6 || std::fabs(a - lo) <= lo * 1e-6;
    if (nearEdge) { return {fixed(), sci()}; }
    if (a >= tiny && (a > hi || a < lo)) { return {sci()}; }
    return {fixed()};
}
using NameOf = std::function<std::string(uint32_t)>; // %m

inline std::string EnumText(const DbM& db, const FieldM& f, uint64_t v)
{
    for (auto& [x, n] : db.enums[f.enumIdx].v) { if (x == static_cast<uint32_t>(v)) { return n; } }
    return "UNKNOWN";
}
inline std::vector<std::string> ElemTexts(const FieldM& f, uint64_t v, const NameOf& nm)
{
    const auto& a = f.alpha;
    if (f.t == T::FLOAT || f.t == T::DOUBLE) { return FloatTexts(f, AsDouble(f, v)); }
    if (a == "UB" || a == "B") { return {IntText(f, v)}; }
    if (a == "XB") { return {Fmt("%02x", static_cast<unsigned>(v))}; }
    if (a == "x" || a == "X" || a == "lx" || a == "llx") { return {Fmt("%0*llx", f.size * 2, static_cast<unsigned long long>(v))}; }
    if (a == "s" && v == '\\') { return {"\\\\"}; } // as in %P, which the decoder reads in the same way
    if (a == "s" || a == "c") { return {std::string(1, static_cast<char>(v))}; }
    if (a == "P")
    {
        if (v == '\\') { return {"\\\\"}; }
        if (v > 31 && v < 127) { return {std::string(1, static_cast<char>(v))}; }
        return {Fmt("\\x%02x", static_cast<unsigned>(v))};
    }
    if (a == "Z") { return {Fmt("%02x", static_cast<unsigned>(v))}; }
    if (a == "T") { return {Fmt("%u.%03u", static_cast<unsigned>(v / 1000), static_cast<unsigned>(v % 1000))}; }
    if (a == "m") { return {nm(static_cast<uint32_t>(v))}; }
    if (a == "id")
    {
        int fr = static_cast<int16_t>(v >> 16);
        std::string s = std::to_string(v & 0xFFFF);
        if (fr > 0) { s += "+" + std::to_string(fr); }
        if (fr < 0) { s += std::to_string(fr); }
        return {s};
    }
    if (f.t == T::BOOL) { return {(v & 0xFF) ? "TRUE" : "FALSE"}; }
    if (f.t == T::HEXBYTE) { return {Fmt("%02x", static_cast<unsigned>(v))}; }
    return {IntText(f, v)};
}

//! A text with alternatives: a sequence of pieces, each with its acceptable spellings.
struct Pieces
{
    std::vector<std::vector<std::string>> p;
    void Add(const std::string& s) { if (!p.empty() && p.back().size() == 1) { p.back()[0] += s; } else { p.push_back({s}); } }
    void Add(const std::vector<std::string>& v) { if (v.size() == 1) { Add(v[0]); } else { p.push_back(v); } }
    void Chop() { auto& l = p.back(); for (auto& s : l) { s.pop_back(); } }
    //! Position of the first byte of `s` no spelling explains, or npos when the whole text matches.
    [[nodiscard]] size_t Match(const std::string& s) const
    {
        size_t pos = 0;
        for (auto& alts : p)
        {
            bool ok = false;
            for (auto& a : alts) { if (s.compare(pos, a.size(), a) == 0) { pos += a.size(); ok = true; break; } }
            if (!ok)
            {
                size_t k = 0;
                while (pos + k < s.size() && k < alts[0].size() && s[pos + k] == alts[0][k]) { ++k; }
                return pos + k;
            }
        }
        return pos == s.size() ? std::string::npos : pos;
    }
    [[nodiscard]] std::string Str() const { std::string r; for (auto& a : p) { r += a[0]; } return r; }
};

inline void AsciiRecord(Pieces& o, const DbM& db, const std::vector<FieldM>& fs, const Body& b, const NameOf& nm, bool abbrev, int indent)
{
    const std::string sep(1, abbrev ? ' ' : ',');
    if (abbrev) { o.Add("<" + std::string(static_cast<size_t>(indent) * 5, ' ')); }
    bool nl = false;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const auto& f = fs[i];
        const auto& v = b[i];
        if (abbrev && nl) { o.Add("\r\n<" + std::string(static_cast<size_t>(indent) * 5, ' ')); nl = false; }
        switch (f.kind)
        {
        case K::Simple: o.Add(ElemTexts(f, v.e[0], nm)); o.Add(sep); break;
        case K::Enum: o.Add(EnumText(db, f, v.e[0]) + sep); break;
        case K::Fixed: case K::Var:
            if (f.kind == K::Var) { o.Add(std::to_string(v.e.size()) + sep); }
            if (f.IsString()) { o.Add("\""); }
            for (auto x : v.e)
            {
                if (f.IsString() && x == 0) { break; }
                o.Add(ElemTexts(f, x, nm));
                if (f.IsCsv()) { o.Add(sep); }
            }
            if (f.IsString()) { o.Add("\""); }
            if (!f.IsCsv()) { o.Add(sep); }
            break;
        case K::Str: o.Add("\"" + v.s + "\"" + sep); break;
        case K::Arr:
            o.Add(std::to_string(v.recs.size()) + sep);
            if (abbrev && v.recs.empty()) { o.Add("\r\n<" + std::string(static_cast<size_t>(indent + 1) * 5, ' ')); }
            for (auto& rec : v.recs)
            {
                if (abbrev) { o.Add("\r\n"); }
                AsciiRecord(o, db, f.sub, rec, nm, abbrev, indent + 1);
            }
            nl = true;
            break;
        }
    }
}
inline Pieces AsciiBody(const DbM& db, const std::vector<FieldM>& fs, const Body& b, const NameOf& nm, bool abbrev)
{
    Pieces p;
    AsciiRecord(p, db, fs, b, nm, abbrev, 1);
    if (!p.p.empty()) { p.Chop(); }
    return p;
}

// ---------------------------------------------------------------- JSON comparison
//! Compares one JSON value with a field element; returns an error text or "".
inline std::string JsonElem(const FieldM& f, uint64_t v, const nlohmann::json& j, const NameOf& nm)
{
    const auto& a = f.alpha;
    if (f.t == T::FLOAT || f.t == T::DOUBLE)
    {
        double x = AsDouble(f, v);
        if (!std::isfinite(x)) { return j.is_null() || j.is_string() ? "" : "non-finite as " + j.dump(); }
        if (!j.is_number()) { return "number expected, got " + j.dump(); }
        double g = j.get<double>();
        for (auto& s : FloatTexts(f, x)) { if (strtod(s.c_str(), nullptr) == g) { return ""; } }
        return "value " + std::to_string(x) + " (" + FloatTexts(f, x)[0] + ") rendered " + j.dump();
    }
    if (a == "T") { return j.is_number() && std::fabs(j.get<double>() - v / 1000.0) < 1e-6 ? "" : "time " + j.dump(); }
    if (a == "m") { return j == nm(static_cast<uint32_t>(v)) ? "" : "message name " + j.dump(); }
    if (a == "id") { return j == ElemTexts(f, v, nm)[0] ? "" : "satellite id " + j.dump() + " for " + ElemTexts(f, v, nm)[0]; }
    if (a == "c") { return j.is_string() && j.get<std::string>() == std::string(1, static_cast<char>(v)) ? "" : "char " + j.dump(); }
    if (f.t == T::BOOL) { return j.is_boolean() && j.get<bool>() == ((v & 0xFF) != 0) ? "" : "bool " + j.dump(); }
    if (!j.is_number_integer()) { return "integer expected, got " + j.dump(); }
    if (a == "P" && f.size == 1 && j.get<int64_t>() == static_cast<int64_t>(v & 0xFF)) { return ""; } // a byte: either sign
    if (TSigned(f.t)) { return j.get<int64_t>() == SExt(v, f.size) ? "" : "int " + j.dump() + " for " + IntText(f, v); }
    return j.is_number_unsigned() && j.get<uint64_t>() == v ? "" : "uint " + j.dump() + " for " + IntText(f, v);
}
inline std::string JsonRecord(const DbM& db, const std::vector<FieldM>& fs, const Body& b, const nlohmann::json& j, const NameOf& nm)
{
    if (!j.is_object()) { return "object expected"; }
    if (j.size() != fs.size()) { return "expected " + std::to_string(fs.size()) + " entries, got " + std::to_string(j.size()); }
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const auto& f = fs[i];
        const auto& v = b[i];
        if (!j.contains(f.name)) { return "no entry for " + f.name; }
        const auto& x = j[f.name];
        std::string e;
        switch (f.kind)
        {
        case K::Simple: e = JsonElem(f, v.e[0], x, nm); break;
        case K::Enum: if (x != EnumText(db, f, v.e[0])) { e = "enum " + x.dump() + " for " + EnumText(db, f, v.e[0]); } break;
        case K::Fixed: case K::Var:
            if (f.IsString())
            {
                std::string s;
                for (auto c : v.e) { if (!c) { break; } s += static_cast<char>(c); }
                if (x != s) { e = "string " + x.dump(); }
            }
            else if (!x.is_array() || x.size() != v.e.size()) { e = "array " + x.dump(); }
            else { for (size_t k = 0; k < v.e.size() && e.empty(); ++k) { e = JsonElem(f, v.e[k], x[k], nm); } }
            break;
        case K::Str: if (x != v.s) { e = "string " + x.dump(); } break;
        case K::Arr:
            if (!x.is_array() || x.size() != v.recs.size()) { e = "field array " + x.dump(); }
            else { for (size_t k = 0; k < v.recs.size() && e.empty(); ++k) { e = JsonRecord(db, f.sub, v.recs[k], x[k], nm); } }
            break;
        }
        if (!e.empty()) { return f.name + " (" + TName(f.t) + " " + f.Conv() + "): " + e; }
    }
    return "";
}
} // namespace m
