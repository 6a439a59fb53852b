// C19: JSON databases. A generated document (any key order, unknown members, escapes, white space) is loaded from memory and from a file and
// compared with an independent reading of the same document; damaged documents must be refused with JsonDbReaderFailure, or load as that reading says.
#include "vt.hpp"
#include <filesystem>
#include <fstream>
#include <nlohmann/json.hpp>
#include <novatel_edie/decoders/common/json_db_reader.hpp>
#include <novatel_edie/decoders/oem/message_decoder.hpp>
#include <set>
#include <unistd.h>

using namespace novatel::edie;
using J = nlohmann::ordered_json;
using vt::Rng;

namespace {
// ------------------------------------------------------------------ the reference reading of a document
struct Bad { std::string why; };
struct Unspec { std::string why; };

struct RF
{
    std::string name, desc, type, conv, alpha, dtName, dtDesc, enumId, lenRef;
    std::optional<int> width, prec;
    uint16_t dtLen = 0;
    uint32_t arrLen = 0;
    unsigned lenSize = 4;
    std::vector<RF> sub;
    bool isString = false, isCsv = false;
    // layout
    size_t index = 0, subFixed = 0, subVar = 0;
    double packed = 0;
};
struct RD { std::vector<RF> f; size_t fixed = 0, var = 0; };
struct RM { std::string oid, name, desc; uint32_t id = 0, latest = 0; std::map<uint32_t, RD> defs; };
struct REv { uint32_t v; std::string n, d; };
struct RE { std::string oid, name; std::vector<REv> v; };
struct RDb { bool hasMeta = false; std::string subset, version, family; std::vector<RM> msgs; std::vector<RE> enums; };

const J& Need(const J& o, const char* k)
{
    if (!o.is_object() || !o.contains(k)) { throw Bad{std::string("missing ") + k}; }
    return o.at(k);
}
std::string Str(const J& j) { if (!j.is_string()) { throw Bad{"not a string"}; } return j.get<std::string>(); }
std::string StrOrNull(const J& j) { return j.is_null() ? std::string() : Str(j); }
uint64_t Uns(const J& j, uint64_t max)
{
    if (!j.is_number_integer() && !j.is_number_unsigned()) { throw Bad{"not an integer"}; }
    if (!j.is_number_unsigned() && j.get<int64_t>() < 0) { throw Bad{"negative"}; }
    auto v = j.get<uint64_t>();
    if (v > max) { throw Bad{"does not fit"}; }
    return v;
}
uint32_t Crc(const std::string& s)
{
    if (s.empty()) { throw Bad{"empty crc"}; }
    uint64_t v = 0;
    for (char c : s)
    {
        if (c < '0' || c > '9') { throw Bad{"crc digits"}; }
        v = v * 10 + static_cast<uint64_t>(c - '0');
        if (v > 0xFFFFFFFFULL) { throw Bad{"crc size"}; }
    }
    return static_cast<uint32_t>(v);
}
void Conversion(RF& f, const std::string& s)
{
    size_t i = 0;
    auto num = [&](std::optional<int>& out) {
        size_t b = i;
        uint64_t v = 0;
        while (i < s.size() && s[i] >= '0' && s[i] <= '9')
        {
            v = v * 10 + static_cast<uint64_t>(s[i++] - '0');
            if (v > 0x7FFFFFFFULL) { throw Bad{"width"}; }
        }
        if (i > b) { out = static_cast<int>(v); }
    };
    if (s.empty() || s[i++] != '%') { throw Bad{"no %"}; }
    num(f.width);
    bool dot = i < s.size() && s[i] == '.';
    if (dot) { ++i; num(f.prec); }
    size_t b = i;
    while (i < s.size() && ((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z'))) { ++i; }
    if (i == b) { throw Bad{"no conversion character"}; }
    if (i != s.size()) { throw Bad{"trailing characters"}; }
    if (dot && !f.prec) { throw Unspec{"precision without digits"}; }
    f.conv = s;
    f.alpha = s.substr(b);
}
using Align = std::function<size_t(size_t len, size_t pos)>;
size_t Pad(size_t pos, size_t a) { return a && pos % a ? a - pos % a : 0; }
Align AlignOf(const std::string& fam)
{
    if (fam == "OEM") { return [](size_t l, size_t p) { return Pad(p, std::min<size_t>(4, l)); }; }
    if (fam == "WIDE") { return [](size_t l, size_t p) { return Pad(p, l == 8 ? 8 : l == 2 ? 4 : 1); }; }
    return [](size_t, size_t) { return size_t{0}; };
}
double Fields(const J& j, RD& out, const Align& al)
{
    if (!j.is_array()) { throw Bad{"fields not an array"}; }
    double packed = 0;
    for (auto& x : j)
    {
        RF f;
        f.type = Str(Need(x, "type"));
        static const std::set<std::string> kTypes = {"SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "STRING", "FIELD_ARRAY"};
        if (!kTypes.count(f.type)) { throw Bad{"type"}; }
        f.name = Str(Need(x, "name"));
        f.desc = StrOrNull(Need(x, "description"));
        if (x.contains("conversionString") && !x["conversionString"].is_null()) { Conversion(f, Str(x["conversionString"])); }
        f.isString = f.type == "STRING" || f.alpha == "s" || f.alpha == "S";
        f.isCsv = !f.isString && f.alpha != "Z" && f.alpha != "P";
        auto& dt = Need(x, "dataType");
        f.dtName = Str(Need(dt, "name"));
        f.dtLen = static_cast<uint16_t>(Uns(Need(dt, "length"), 0xFFFF));
        f.dtDesc = StrOrNull(Need(dt, "description"));
        auto fixed = [&](double n) { out.fixed += al(f.dtLen, out.fixed); f.index = out.fixed; out.fixed += static_cast<size_t>(n); packed += n; };
        if (f.type == "ENUM") { f.enumId = Str(Need(x, "enumID")); }
        if (f.type == "SIMPLE" || f.type == "ENUM") { fixed(f.dtLen); }
        else
        {
            auto& al2 = Need(x, "arrayLength");
            f.arrLen = f.type == "FIELD_ARRAY" && al2.is_null() ? 0 : static_cast<uint32_t>(Uns(al2, 0xFFFFFFFFULL));
            if (x.contains("arrayLengthFieldSize")) { f.lenSize = static_cast<unsigned>(Uns(x["arrayLengthFieldSize"], 255)); }
            if (x.contains("arrayLengthRef")) { f.lenRef = StrOrNull(x["arrayLengthRef"]); }
            double bytes = static_cast<double>(f.dtLen) * f.arrLen;
            if (f.type == "FIXED_LENGTH_ARRAY") { fixed(bytes); }
            else
            {
                f.index = out.var++;
                if (f.type == "FIELD_ARRAY")
                {
                    RD sub;
                    f.packed = Fields(Need(x, "fields"), sub, al) * f.arrLen;
                    f.sub = sub.f;
                    f.subFixed = sub.fixed;
                    f.subVar = sub.var;
                    packed += f.packed + (f.lenRef.empty() ? f.lenSize : 0);
                }
                else { packed += bytes + (f.type == "VARIABLE_LENGTH_ARRAY" && f.lenRef.empty() ? f.lenSize : 0); }
            }
        }
        out.f.push_back(f);
    }
    return packed;
}
RDb Read(const J& d)
{
    RDb r;
    if (d.is_object() && d.contains("meta"))
    {
        auto& mt = d["meta"];
        if (!mt.is_object()) { throw Unspec{"meta is not an object"}; }
        r.hasMeta = true;
        r.subset = mt.contains("subset") ? Str(mt["subset"]) : "";
        r.version = mt.contains("version") ? Str(mt["version"]) : "0.0.0";
        r.family = mt.contains("messageFamily") ? Str(mt["messageFamily"]) : "";
    }
    auto al = AlignOf(r.family);
    auto& ms = Need(d, "messages");
    if (!ms.is_array()) { throw Bad{"messages"}; }
    for (auto& x : ms)
    {
        RM q;
        q.oid = Str(Need(x, "_id"));
        q.id = static_cast<uint32_t>(Uns(Need(x, "messageID"), 0xFFFFFFFFULL));
        q.name = Str(Need(x, "name"));
        q.desc = StrOrNull(Need(x, "description"));
        q.latest = Crc(Str(Need(x, "latestMsgDefCrc")));
        auto& fs = Need(x, "fields");
        if (!fs.is_object()) { throw Bad{"fields"}; }
        for (auto& [k, v] : fs.items())
        {
            uint32_t c = Crc(k);
            if (q.defs.count(c)) { throw Unspec{"same crc twice"}; }
            Fields(v, q.defs[c], al);
        }
        r.msgs.push_back(q);
    }
    auto& es = Need(d, "enums");
    if (!es.is_array()) { throw Bad{"enums"}; }
    for (auto& x : es)
    {
        RE e;
        e.oid = Str(Need(x, "_id"));
        e.name = Str(Need(x, "name"));
        auto& vs = Need(x, "enumerators");
        if (!vs.is_array()) { throw Bad{"enumerators"}; }
        for (auto& y : vs)
        {
            REv v;
            v.v = static_cast<uint32_t>(Uns(Need(y, "value"), 0xFFFFFFFFULL));
            v.n = Str(Need(y, "name"));
            v.d = StrOrNull(Need(y, "description"));
            if (v.v == 0xFFFFFFFFU) { throw Unspec{"enumerator leaves no unknown value"}; }
            e.v.push_back(v);
        }
        r.enums.push_back(e);
    }
    return r;
}
//! Judge a document: 0 loads as `out`, 1 must be refused, 2 either (but nothing else). A refusal anywhere wins over "unspecified" anywhere
//! only when it is certain, so documents that show both are not generated on purpose and are treated as unspecified.
int Judge(const J& d, RDb& out, std::string& why)
{
    try { out = Read(d); return 0; }
    catch (const Bad& b) { why = b.why; return 1; }
    catch (const Unspec& u) { why = u.why; return 2; }
}

// ------------------------------------------------------------------ comparison
bool SameName(const std::map<std::string, int>& cnt, const std::string& n) { auto i = cnt.find(n); return i != cnt.end() && i->second == 1; }

void CheckField(const BaseField::ConstPtr& f, const RF& e, const RDb& db, const MessageDatabase& got, const std::string& where)
{
    VT_CHECK(f != nullptr, "field", where << ": null field");
    VT_CHECK(f->name == e.name && f->description == e.desc, "field", where << ": name/description '" << f->name << "' '" << f->description << "'");
    VT_CHECK(FieldTypeToString(f->type) == e.type, "field", where << ": type " << FieldTypeToString(f->type) << " instead of " << e.type);
    static const std::set<std::string> kKnown = {"BOOL", "CHAR", "UCHAR", "SHORT", "USHORT", "INT", "UINT", "LONG", "ULONG", "LONGLONG", "ULONGLONG", "FLOAT", "DOUBLE", "HEXBYTE", "SATELLITEID"};
    std::string dt = kKnown.count(e.dtName) ? e.dtName : "UNKNOWN";
    VT_CHECK(DataTypeToString(f->dataType.name) == dt && f->dataType.length == e.dtLen && f->dataType.description == e.dtDesc, "data_type",
             where << ": data type " << DataTypeToString(f->dataType.name) << "/" << f->dataType.length << " instead of " << dt << "/" << e.dtLen);
    VT_CHECK(f->conversion == e.conv, "conversion", where << ": conversion '" << f->conversion << "' instead of '" << e.conv << "'");
    VT_CHECK(f->width == e.width && f->precision == e.prec, "width",
             where << ": '" << e.conv << "' read as width " << (f->width ? *f->width : -1) << " precision " << (f->precision ? *f->precision : -1));
    if (e.alpha.empty()) { VT_CHECK(f->conversionHash == 0, "conversion_hash", where << ": hash without conversion"); }
    else { VT_CHECK(f->conversionHash == CalculateBlockCrc32(e.alpha.c_str()), "conversion_hash", where << ": hash of '" << e.conv << "'"); }
    VT_CHECK(f->isString == e.isString, "is_string", where << ": " << e.type << " '" << e.conv << "' isString " << f->isString);
    if (e.type != "FIELD_ARRAY" && e.type != "SIMPLE" && e.type != "ENUM")
    {
        VT_CHECK(f->isCsv == e.isCsv, "is_csv", where << ": " << e.type << " '" << e.conv << "' isCsv " << f->isCsv);
    }
    VT_CHECK(f->index == e.index, "layout", where << ": at " << f->index << " instead of " << e.index);
    if (e.type == "ENUM")
    {
        auto ef = std::dynamic_pointer_cast<const EnumField>(f);
        VT_CHECK(ef != nullptr, "field", where << ": not an EnumField");
        VT_CHECK(ef->enumId == e.enumId, "enum_field", where << ": enum id '" << ef->enumId << "' instead of '" << e.enumId << "'");
        const RE* want = nullptr;
        for (auto& x : db.enums) { if (x.oid == e.enumId) { want = &x; } }
        VT_CHECK((ef->enumDef != nullptr) == (want != nullptr), "enum_field", where << ": enum " << e.enumId << (want ? " unresolved" : " resolved to nothing of the document"));
        if (want) { VT_CHECK(ef->enumDef->name == want->name && ef->enumDef == got.GetEnumDefId(e.enumId), "enum_field", where << ": resolved to '" << ef->enumDef->name << "'"); }
    }
    if (e.type == "FIXED_LENGTH_ARRAY" || e.type == "VARIABLE_LENGTH_ARRAY" || e.type == "STRING" || e.type == "FIELD_ARRAY")
    {
        auto af = std::dynamic_pointer_cast<const ArrayField>(f);
        VT_CHECK(af != nullptr, "field", where << ": not an ArrayField");
        VT_CHECK(af->arrayLength == e.arrLen && af->arrayLengthRef == e.lenRef && af->arrayLengthFieldSize == e.lenSize, "array",
                 where << ": array of " << af->arrayLength << " ref '" << af->arrayLengthRef << "' count of " << static_cast<int>(af->arrayLengthFieldSize) << " bytes, instead of "
                       << e.arrLen << " '" << e.lenRef << "' " << e.lenSize);
    }
    if (e.type == "FIELD_ARRAY")
    {
        auto fa = std::dynamic_pointer_cast<const FieldArrayField>(f);
        VT_CHECK(fa != nullptr && fa->fieldInfo != nullptr, "field", where << ": not a FieldArrayField");
        if (e.packed < 4e9) { VT_CHECK(static_cast<double>(fa->fieldSize) == e.packed, "field_size", where << ": fieldSize " << fa->fieldSize << " instead of " << e.packed); }
        VT_CHECK(fa->fieldInfo->fixedFieldBytes == e.subFixed && fa->fieldInfo->varFieldCount == e.subVar, "layout",
                 where << ": record of " << fa->fieldInfo->fixedFieldBytes << " bytes and " << fa->fieldInfo->varFieldCount << " variable fields, instead of " << e.subFixed << " and " << e.subVar);
        VT_CHECK(fa->fieldInfo->messageOrderedFields.size() == e.sub.size(), "field", where << ": " << fa->fieldInfo->messageOrderedFields.size() << " fields");
        for (size_t i = 0; i < e.sub.size(); ++i) { CheckField(fa->fieldInfo->messageOrderedFields[i], e.sub[i], db, got, where + "." + e.sub[i].name); }
    }
    vt::Eval();
}
void CheckDb(const MessageDatabase::Ptr& p, const RDb& e, const std::string& how)
{
    VT_CHECK(p != nullptr, "null", how << ": no database");
    auto md = p->GetDbMetadata();
    VT_CHECK((md != nullptr) == e.hasMeta, "metadata", how << ": metadata " << (md ? "present" : "absent"));
    if (md) { VT_CHECK(md->subset == e.subset && md->version == e.version && md->messageFamily == e.family, "metadata", how << ": '" << md->subset << "' '" << md->version << "' '" << md->messageFamily << "'"); }
    VT_CHECK(p->MessageDefinitions().size() == e.msgs.size(), "messages", how << ": " << p->MessageDefinitions().size() << " messages instead of " << e.msgs.size());
    VT_CHECK(p->EnumDefinitions().size() == e.enums.size(), "enums", how << ": " << p->EnumDefinitions().size() << " enums instead of " << e.enums.size());
    std::map<std::string, int> names, ids, en, ei;
    for (auto& x : e.msgs) { ++names[x.name]; ++ids[std::to_string(x.id)]; }
    for (auto& x : e.enums) { ++en[x.name]; ++ei[x.oid]; }
    for (size_t i = 0; i < e.msgs.size(); ++i)
    {
        auto& x = e.msgs[i];
        auto d = p->MessageDefinitions()[i];
        std::string w = how + ": " + x.name;
        VT_CHECK(d && d->_id == x.oid && d->logID == x.id && d->name == x.name && d->description == x.desc && d->latestMessageCrc == x.latest, "message",
                 w << ": read as '" << d->_id << "' " << d->logID << " '" << d->name << "' '" << d->description << "' " << d->latestMessageCrc);
        if (SameName(names, x.name)) { VT_CHECK(p->GetMsgDef(std::string_view(x.name)) == d, "lookup", w << ": not found by name"); }
        if (SameName(ids, std::to_string(x.id))) { VT_CHECK(p->GetMsgDef(static_cast<int32_t>(x.id)) == d, "lookup", w << ": not found by number " << x.id); }
        VT_CHECK(d->fieldInfo.size() == x.defs.size(), "definitions", w << ": " << d->fieldInfo.size() << " definitions instead of " << x.defs.size());
        for (auto& [crc, def] : x.defs)
        {
            auto it = d->fieldInfo.find(crc);
            VT_CHECK(it != d->fieldInfo.end() && it->second, "definitions", w << ": no definition " << crc);
            VT_CHECK(&d->GetMsgDefFromCrc(crc) == it->second.get(), "definitions", w << ": definition " << crc << " not found by crc");
            VT_CHECK(it->second->messageOrderedFields.size() == def.f.size(), "definitions", w << ": " << it->second->messageOrderedFields.size() << " fields instead of " << def.f.size());
            for (size_t k = 0; k < def.f.size(); ++k) { CheckField(it->second->messageOrderedFields[k], def.f[k], e, *p, w + "." + def.f[k].name); }
            VT_CHECK(it->second->fixedFieldBytes == def.fixed && it->second->varFieldCount == def.var, "layout",
                     w << ": " << it->second->fixedFieldBytes << " bytes, " << it->second->varFieldCount << " variable, instead of " << def.fixed << ", " << def.var);
        }
    }
    for (size_t i = 0; i < e.enums.size(); ++i)
    {
        auto& x = e.enums[i];
        auto d = p->EnumDefinitions()[i];
        std::string w = how + ": enum " + x.name;
        VT_CHECK(d && d->_id == x.oid && d->name == x.name && d->enumerators.size() == x.v.size(), "enum", w << ": read as '" << d->_id << "' '" << d->name << "' of " << d->enumerators.size());
        if (SameName(en, x.name)) { VT_CHECK(p->GetEnumDefName(x.name) == d, "lookup", w << ": not found by name"); }
        if (SameName(ei, x.oid)) { VT_CHECK(p->GetEnumDefId(x.oid) == d, "lookup", w << ": not found by id"); }
        uint32_t top = 0;
        std::map<std::string, int> vn, vd;
        std::map<uint32_t, int> vv;
        for (auto& v : x.v) { ++vn[v.n]; ++vd[v.d]; ++vv[v.v]; top = std::max(top, v.v); }
        for (size_t k = 0; k < x.v.size(); ++k)
        {
            auto& v = x.v[k];
            VT_CHECK(d->enumerators[k].value == v.v && d->enumerators[k].name == v.n && d->enumerators[k].description == v.d, "enum", w << ": enumerator " << d->enumerators[k].value << " '" << d->enumerators[k].name << "'");
            if (vn[v.n] == 1) { auto it = d->nameValue.find(v.n); VT_CHECK(it != d->nameValue.end() && it->second == v.v, "enum_lookup", w << ": value of '" << v.n << "'"); }
            if (vd[v.d] == 1) { auto it = d->descriptionValue.find(v.d); VT_CHECK(it != d->descriptionValue.end() && it->second == v.v, "enum_lookup", w << ": value of '" << v.d << "'"); }
            if (vv[v.v] == 1) { auto it = d->valueName.find(v.v); VT_CHECK(it != d->valueName.end() && it->second == v.n, "enum_lookup", w << ": name of " << v.v); }
        }
        VT_CHECK(d->unknownValue == top + 1, "enum_lookup", w << ": unknown value " << d->unknownValue << " beside " << top);
    }
}

// ------------------------------------------------------------------ documents
std::string Name(Rng& r)
{
    std::string s;
    int n = static_cast<int>(r.Range(r.Chance(0.05) ? 0 : 1, 14));
    for (int i = 0; i < n; ++i)
    {
        if (r.Chance(0.93)) { s += "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefxyz_0123456789 "[r.Below(48)]; }
        else { s += r.PickOf<std::string>({"\"", "\\", "/", "\n", "\t", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x9B\xB0", "%", std::string("\0", 1), "\x7F"}); }
    }
    return s;
}
J Desc(Rng& r) { return r.Chance(0.4) ? J(nullptr) : J(Name(r)); }
void Extra(Rng& r, J& o)
{
    if (r.Chance(0.8)) { return; }
    switch (r.Below(4))
    {
    case 0: o["comment"] = Name(r); break;
    case 1: o["x" + std::to_string(r.Below(100))] = J::array({1, nullptr, "z"}); break;
    case 2: o["value2"] = J{{"name", 3}}; break;
    default: o[""] = 1.5; break;
    }
}
std::string ConvText(Rng& r)
{
    std::string s = "%";
    if (r.Chance(0.4)) { s += r.PickOf<std::string>({"1", "5", "10", "18", "0", "04", "08", "010", "123456", "007"}); }
    if (r.Chance(0.4)) { s += "." + r.PickOf<std::string>({"0", "1", "2", "9", "17", "03", "00", "120"}); }
    return s + r.PickOf<std::string>({"d", "ld", "lld", "u", "lu", "llu", "hd", "hu", "x", "X", "lx", "lX", "c", "s", "S", "Z", "P", "f", "lf", "e", "g", "k", "lk", "B", "UB", "XB", "T", "m", "M", "id", "R", "j", "F", "p", "q"});
}
J GenFieldDoc(Rng& r, const std::vector<std::string>& enumIds, int depth, int& n);
J GenFieldsDoc(Rng& r, const std::vector<std::string>& enumIds, int depth, int& n)
{
    J a = J::array();
    int k = static_cast<int>(r.Range(r.Chance(0.1) ? 0 : 1, depth ? 4 : 9));
    for (int i = 0; i < k; ++i) { a.push_back(GenFieldDoc(r, enumIds, depth, n)); }
    return a;
}
J GenFieldDoc(Rng& r, const std::vector<std::string>& enumIds, int depth, int& n)
{
    J f;
    std::string type = r.PickOf<std::string>({"SIMPLE", "SIMPLE", "SIMPLE", "ENUM", "FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY", "STRING", "FIELD_ARRAY"});
    if (depth > 3 && type == "FIELD_ARRAY") { type = "SIMPLE"; }
    f["name"] = r.Chance(0.7) ? "f" + std::to_string(n++) : Name(r);
    f["description"] = Desc(r);
    f["type"] = type;
    std::string dt = r.PickOf<std::string>({"BOOL", "CHAR", "UCHAR", "SHORT", "USHORT", "INT", "UINT", "LONG", "ULONG", "LONGLONG", "ULONGLONG", "FLOAT", "DOUBLE", "HEXBYTE", "SATELLITEID", "UNKNOWN", "FANCY"});
    static const std::map<std::string, int> kSize = {{"BOOL", 4}, {"CHAR", 1}, {"UCHAR", 1}, {"SHORT", 2}, {"USHORT", 2}, {"LONGLONG", 8}, {"ULONGLONG", 8}, {"DOUBLE", 8}, {"HEXBYTE", 1}};
    int len = kSize.count(dt) ? kSize.at(dt) : 4;
    if (r.Chance(0.1)) { len = r.PickOf({0, 1, 2, 3, 5, 8, 12, 255, 256, 65535}); }
    f["dataType"] = {{"name", dt}, {"length", len}, {"description", Desc(r)}};
    Extra(r, f["dataType"]);
    switch (r.Below(type == "FIELD_ARRAY" ? 2 : 8))
    {
    case 0: f["conversionString"] = nullptr; break;
    case 1: break;
    default: f["conversionString"] = ConvText(r); break;
    }
    if (type == "ENUM") { f["enumID"] = enumIds.empty() || r.Chance(0.1) ? Name(r) : r.Pick(enumIds); }
    if (type == "FIXED_LENGTH_ARRAY" || type == "VARIABLE_LENGTH_ARRAY" || type == "STRING" || type == "FIELD_ARRAY")
    {
        f["arrayLength"] = r.Chance(0.9) ? static_cast<uint32_t>(r.Below(40)) : static_cast<uint32_t>(r.PickOf<uint32_t>({255, 256, 4096, 10000}));
        if (type == "FIELD_ARRAY" && r.Chance(0.15)) { f["arrayLength"] = nullptr; }
        if (r.Chance(0.4)) { f["arrayLengthFieldSize"] = r.PickOf({1, 2, 4, 8, 0, 255}); }
        if (r.Chance(0.3)) { f["arrayLengthRef"] = r.Chance(0.2) ? J(nullptr) : J("f" + std::to_string(r.Below(static_cast<uint64_t>(n) + 1))); }
    }
    if (type == "FIELD_ARRAY") { f["fields"] = GenFieldsDoc(r, enumIds, depth + 1, n); }
    Extra(r, f);
    return f;
}
J GenDoc(Rng& r)
{
    J d;
    switch (r.Below(8))
    {
    case 0: break;
    case 1: d["meta"] = J::object(); break;
    case 2: d["meta"] = {{"version", "1.2.3"}}; break;
    default: d["meta"] = {{"subset", Name(r)}, {"version", std::to_string(r.Below(10)) + ".0.1"}, {"messageFamily", r.PickOf<std::string>({"OEM", "OEM", "OEM", "WIDE", "", "OTHER"})}}; break;
    }
    if (d.contains("meta")) { Extra(r, d["meta"]); }
    std::vector<std::string> ids;
    J enums = J::array();
    int ne = static_cast<int>(r.Below(5));
    for (int i = 0; i < ne; ++i)
    {
        J e;
        std::string id = r.Chance(0.9) ? "enum" + std::to_string(i) : Name(r) + std::to_string(i);
        ids.push_back(id);
        e["_id"] = id;
        e["name"] = "E" + std::to_string(i) + Name(r);
        e["enumerators"] = J::array();
        int nv = static_cast<int>(r.Below(9));
        for (int k = 0; k < nv; ++k)
        {
            J v{{"value", r.Chance(0.8) ? static_cast<uint32_t>(k) : r.PickOf<uint32_t>({255, 65535, 1000, 0x7FFFFFFE, 0x80000000, 0xFFFFFFFE})}, {"name", r.Chance(0.9) ? "V" + std::to_string(k) : Name(r)}, {"description", Desc(r)}};
            Extra(r, v);
            e["enumerators"].push_back(v);
        }
        Extra(r, e);
        enums.push_back(e);
    }
    J msgs = J::array();
    int nm = static_cast<int>(r.Below(6));
    for (int i = 0; i < nm; ++i)
    {
        J x;
        x["_id"] = Name(r);
        x["messageID"] = r.Chance(0.8) ? static_cast<uint32_t>(r.Below(65536)) : r.PickOf<uint32_t>({0, 1, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF});
        x["name"] = r.Chance(0.8) ? "MSG" + std::to_string(i) : Name(r);
        x["description"] = Desc(r);
        J fs = J::object();
        int nd = static_cast<int>(r.Range(r.Chance(0.05) ? 0 : 1, 3));
        std::string last = "0";
        for (int k = 0; k < nd; ++k)
        {
            last = std::to_string(static_cast<uint32_t>(r.Chance(0.8) ? r.Next() : r.PickOf<uint32_t>({0, 1, 0x80000000, 0xFFFFFFFF})));
            int n = 0;
            fs[last] = GenFieldsDoc(r, ids, 0, n);
        }
        x["latestMsgDefCrc"] = r.Chance(0.9) ? last : std::to_string(static_cast<uint32_t>(r.Next()));
        x["fields"] = fs;
        Extra(r, x);
        msgs.push_back(x);
    }
    if (r.Chance(0.5)) { d["messages"] = msgs; d["enums"] = enums; }
    else { d["enums"] = enums; d["messages"] = msgs; }
    Extra(r, d);
    return d;
}
//! Members in random order.
J Shuffled(Rng& r, const J& j)
{
    if (j.is_array())
    {
        J a = J::array();
        for (auto& x : j) { a.push_back(Shuffled(r, x)); }
        return a;
    }
    if (!j.is_object()) { return j; }
    std::vector<std::pair<std::string, J>> v;
    for (auto& [k, x] : j.items()) { v.emplace_back(k, Shuffled(r, x)); }
    for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[r.Below(i)]); }
    J o = J::object();
    for (auto& [k, x] : v) { o[k] = x; }
    return o;
}
//! The document as text with free white space and escapes.
void Text(Rng& r, const J& j, std::string& o, int style)
{
    auto ws = [&] { if (style && r.Chance(0.2)) { o += r.PickOf<std::string>({" ", "\n", "\t", "\r\n", "  \n "}); } };
    auto str = [&](const std::string& s) {
        if (!style) { o += J(s).dump(); return; }
        o += '"';
        for (size_t i = 0; i < s.size(); ++i)
        {
            auto c = static_cast<unsigned char>(s[i]);
            if (c < 0x20 || c == '"' || c == '\\' || (c < 0x7F && r.Chance(0.03)))
            {
                char b[8];
                snprintf(b, sizeof(b), r.Chance(0.5) ? "\\u%04x" : "\\u%04X", c);
                o += b;
            }
            else { o += s[i]; }
        }
        o += '"';
    };
    ws();
    if (j.is_object())
    {
        o += '{';
        bool first = true;
        for (auto& [k, x] : j.items())
        {
            if (!first) { o += ','; }
            first = false;
            ws();
            str(k);
            ws();
            o += ':';
            Text(r, x, o, style);
        }
        ws();
        o += '}';
    }
    else if (j.is_array())
    {
        o += '[';
        bool first = true;
        for (auto& x : j)
        {
            if (!first) { o += ','; }
            first = false;
            Text(r, x, o, style);
        }
        ws();
        o += ']';
    }
    else if (j.is_string()) { str(j.get<std::string>()); }
    else { o += j.dump(); }
    ws();
}
std::string ToText(Rng& r, const J& j, int style) { std::string o; Text(r, j, o, style); return o; }

struct TempFile
{
    std::filesystem::path p;
    explicit TempFile(std::string_view b)
    {
        static unsigned n = 0;
        p = std::filesystem::temp_directory_path() / ("dbload_" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".json");
        std::ofstream(p, std::ios::binary).write(b.data(), static_cast<std::streamsize>(b.size()));
    }
    ~TempFile() { std::error_code ec; std::filesystem::remove(p, ec); }
};
//! Load, from memory (heap-exact) or from a file. Null: refused.
MessageDatabase::Ptr Load(const std::string& text, bool file, std::string& err)
{
    try
    {
        if (file) { TempFile t(text); return LoadJsonDbFile(t.p); }
        std::unique_ptr<char[]> heap(new char[text.size()]);
        std::memcpy(heap.get(), text.data(), text.size());
        auto p = ParseJsonDb(std::string_view(heap.get(), text.size()));
        std::memset(heap.get(), 'Z', text.size()); // the database must not refer to the document
        VT_CHECK(p != nullptr, "null", "no database and no failure");
        return p;
    }
    catch (const JsonDbReaderFailure& e)
    {
        err = e.what();
        VT_CHECK(!err.empty(), "failure_text", "a failure without text");
        return nullptr;
    }
    catch (const vt::Violation&) { throw; }
    catch (const std::exception& e) { vt::Fail("exception", std::string("another exception than JsonDbReaderFailure: ") + e.what()); }
    catch (...) { vt::Fail("exception", "an exception that is no std::exception"); }
}
struct Reg
{
    Reg() { MessageDatabase::RegisterAlignmentFunction("WIDE", [](size_t len, uintptr_t start, uintptr_t ptr) { size_t a = len == 8 ? 8 : len == 2 ? 4 : 1; size_t o = (ptr - start) % a; return o ? a - o : size_t{0}; }); }
} gReg;

// ------------------------------------------------------------------ damage
std::vector<J*> Nodes(J& j)
{
    std::vector<J*> v{&j};
    for (size_t i = 0; i < v.size(); ++i)
    {
        if (v[i]->is_structured()) { for (auto& x : *v[i]) { v.push_back(&x); } }
    }
    return v;
}
J RandomValue(Rng& r)
{
    switch (r.Below(14))
    {
    case 0: return nullptr;
    case 1: return true;
    case 2: return -1;
    case 3: return J(static_cast<uint64_t>(r.PickOf<uint64_t>({0, 1, 4, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x100000000ULL, 0x10000002AULL, 0x7FFFFFFFFFFFFFFFULL, 0x8000000000000000ULL, 0xFFFFFFFFFFFFFFFFULL})));
    case 4: return J(static_cast<int64_t>(r.PickOf<int64_t>({-2, -128, -65536, -4294967295LL, INT64_MIN})));
    case 5: return r.PickOf({1.0, 1.5, -0.0, 4e9, 1e300});
    case 6: return "";
    case 7: return Name(r);
    case 8: return J::array();
    case 9: return J::object();
    case 10: return J::array({J::object()});
    case 11: return r.PickOf<std::string>({"0", "12", " 12", "12 ", "-5", "+5", "12abc", "0x1F", "4294967295", "4294967296", "4294967338", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "1e3", "1.5", "007"});
    case 12: return r.PickOf<std::string>({"%", "d", "%d%", "%5", "%5.3", "% d", "%-5d", "%5.3.2f", "%99999999999d", "%.99999999999f", "%d ", "\xC3\xA9", "%\xC3\xA9", "%d\xC3\xA9", "%04", "%0", "%.d", "%.f", "%5.lf", "%lld1"});
    default: return J{{"name", "x"}, {"length", 4}, {"description", nullptr}};
    }
}
void Damage(Rng& r, J& d, std::string& what)
{
    auto v = Nodes(d);
    if (r.Chance(0.6)) // a member of an object is left out or replaced
    {
        std::vector<J*> o;
        for (auto* x : v) { if (x->is_object() && !x->empty()) { o.push_back(x); } }
        if (o.empty()) { d = RandomValue(r); what += "another document; "; return; }
        J* x = o[r.Below(o.size())];
        auto it = x->begin();
        std::advance(it, static_cast<long>(r.Below(x->size())));
        std::string key = it.key();
        if (r.Chance(0.4)) { what += "without " + key + "; "; x->erase(key); }
        else if (r.Chance(0.1)) { J val = it.value(); x->erase(key); (*x)[key + "x"] = val; what += "renamed " + key + "; "; }
        else { it.value() = RandomValue(r); what += key + " = " + it.value().dump(-1, ' ', false, J::error_handler_t::replace).substr(0, 60) + "; "; }
        return;
    }
    J* x = v[r.Below(v.size())];
    *x = RandomValue(r);
    what += "value replaced by " + x->dump(-1, ' ', false, J::error_handler_t::replace).substr(0, 60) + "; ";
}
//! Does an object of the text have the same member twice? (Which one counts is not specified.)
bool Duplicates(const std::string& text)
{
    bool dup = false;
    std::vector<std::set<std::string>> st;
    auto cb = [&](int, J::parse_event_t e, J& v) {
        if (e == J::parse_event_t::object_start) { st.emplace_back(); }
        else if (e == J::parse_event_t::object_end) { st.pop_back(); }
        else if (e == J::parse_event_t::key) { dup |= !st.back().insert(v.get<std::string>()).second; }
        return true;
    };
    (void)J::parse(text, cb, false);
    return dup;
}
void Expect(const J& doc, const std::string& text, bool file, const std::string& what)
{
    RDb e;
    std::string why, err;
    int verdict = Judge(doc, e, why);
    auto p = Load(text, file, err);
    if (verdict == 0)
    {
        vt::Count("loaded");
        VT_CHECK(p != nullptr, "refused", what << "a document that says everything was refused: " << vt::Esc(err.substr(err.size() > 200 ? err.size() - 200 : 0)) << "\n" << vt::Esc(text, 3000));
        try { CheckDb(p, e, file ? "file" : "memory"); }
        catch (const vt::Violation& x) { vt::Fail(x.key, what + x.what() + "\n" + vt::Esc(text, 3000)); }
    }
    else if (verdict == 1)
    {
        vt::Count("refused");
        vt::Count("refused:" + why);
        VT_CHECK(p == nullptr, "accepted", what << "a document that must be refused (" << why << ") was loaded\n" << vt::Esc(text, 3000));
    }
    else { vt::Count("unspecified"); }
}
} // namespace

VT_SUITE(wellformed)
{
    J d = Shuffled(rng, GenDoc(rng));
    std::string t = ToText(rng, d, static_cast<int>(rng.Below(2)));
    vt::Distinct(vt::HashStr(t));
    if (rng.Chance(0.02)) { vt::Sample(vt::Esc(t, 300)); }
    Expect(d, t, rng.Chance(0.15), "");
}
VT_SUITE(damaged)
{
    J d = GenDoc(rng);
    std::string what;
    int n = rng.Chance(0.8) ? 1 : 2;
    for (int i = 0; i < n; ++i) { Damage(rng, d, what); }
    d = Shuffled(rng, d);
    std::string t = ToText(rng, d, static_cast<int>(rng.Below(2)));
    vt::Distinct(vt::HashStr(t));
    if (n == 2) // which of two defects is met first decides between "refused" and "unspecified"
    {
        RDb e;
        std::string why, err;
        if (Judge(d, e, why) != 0) { std::string er; Load(t, false, er); vt::Count("two_defects"); vt::Eval(); return; }
    }
    vt::Eval();
    Expect(d, t, rng.Chance(0.15), what);
}
VT_SUITE(text)
{
    J d = rng.Chance(0.3) ? J(RandomValue(rng)) : Shuffled(rng, GenDoc(rng));
    std::string t = ToText(rng, d, static_cast<int>(rng.Below(2)));
    std::string what;
    switch (rng.Below(7))
    {
    case 0: t.resize(rng.Below(t.size() + 1)); what = "cut; "; break;
    case 1: if (!t.empty()) { t[rng.Below(t.size())] = static_cast<char>(rng.Below(256)); } what = "byte; "; break;
    case 2: t.insert(rng.Below(t.size() + 1), rng.PickOf<std::string>({",", "}", "]", "{", "[", "\"", ":", "\\", "\xFF", std::string("\0", 1), "1", "-", "null", "//", "\xEF\xBB\xBF"})); what = "insert; "; break;
    case 3: t += rng.PickOf<std::string>({"x", "{}", "]", ",", std::string("\0", 1), " \n"}); what = "tail; "; break;
    case 4: if (!t.empty()) { t.erase(rng.Below(t.size()), rng.Range(1, 4)); } what = "erase; "; break;
    case 5: t = std::string(rng.Range(1, 100000), rng.PickOf({'[', '{', '"', ' ', '1'})); what = "nest; "; break;
    default: t = rng.Bytes(rng.Below(200)); what = "noise; "; break;
    }
    vt::Distinct(vt::HashStr(t));
    vt::Eval();
    bool file = rng.Chance(0.2);
    if (t.size() > 5000 && what == "nest; ") // a document of brackets only is never a database
    {
        std::string err;
        VT_CHECK(Load(t, file, err) == nullptr, "accepted", "a nest of brackets was loaded");
        vt::Count("refused");
        return;
    }
    J j = J::parse(t, nullptr, false);
    if (j.is_discarded() || t.find('\0') != std::string::npos) // nlohmann takes a NUL for the end
    {
        std::string err;
        auto p = Load(t, file, err);
        if (t.compare(0, 3, "\xEF\xBB\xBF") == 0) { vt::Count("unspecified"); return; } // a byte order mark may be skipped
        VT_CHECK(p == nullptr, "accepted", what << "text that is not JSON was loaded: " << vt::Esc(t, 3000));
        vt::Count("refused");
        return;
    }
    if (Duplicates(t) || t.compare(0, 3, "\xEF\xBB\xBF") == 0) { std::string err; Load(t, file, err); vt::Count("unspecified"); return; }
    Expect(j, t, file, what);
}
VT_SUITE(files)
{
    auto must = [](const std::filesystem::path& p, const char* what) {
        try { (void)LoadJsonDbFile(p); vt::Fail("accepted", std::string("loaded ") + what); }
        catch (const JsonDbReaderFailure&) { vt::Count("refused"); }
        catch (const vt::Violation&) { throw; }
        catch (const std::exception& e) { vt::Fail("exception", std::string(what) + ": " + e.what()); }
        vt::Eval();
    };
    auto dir = std::filesystem::temp_directory_path() / ("dbload_d_" + std::to_string(getpid()));
    std::filesystem::create_directories(dir);
    struct Rm { std::filesystem::path p; ~Rm() { std::error_code ec; std::filesystem::remove_all(p, ec); } } rm{dir};
    must(dir / "missing.json", "a missing file");
    must(dir, "a directory");
    must("", "an empty path");
    { TempFile t(""); must(t.p, "an empty file"); }
    { TempFile t(rng.Bytes(rng.Range(1, 3000))); must(t.p, "noise"); }
    vt::Distinct(rng.Next());
}
VT_MAIN()
