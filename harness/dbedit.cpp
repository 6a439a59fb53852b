// C18: histories of edits on several databases that share definitions (merged, copied, looked up, constructed from each other), against a model.
#include "vt.hpp"
#include <novatel_edie/decoders/common/json_db_reader.hpp>
#include <novatel_edie/decoders/oem/message_decoder.hpp>
#include <set>

using namespace novatel::edie;
using vt::Rng;

namespace {
// ------------------------------------------------------------------ model
struct FS
{
    FIELD_TYPE type = FIELD_TYPE::SIMPLE;
    DATA_TYPE dt = DATA_TYPE::UINT;
    std::string name, conv, enumId;
    uint32_t arrLen = 0;
    std::vector<FS> sub;
};
struct DS { uint32_t crc; std::vector<FS> f; };
struct MS { uint32_t id = 0, latest = 0; std::string name, oid, desc; std::vector<DS> defs; };
struct ES { std::string id, name; std::vector<std::pair<uint32_t, std::string>> v; };
using MP = std::shared_ptr<const MS>;
using EP = std::shared_ptr<const ES>;

size_t AlignOf(const std::string& fam, size_t len)
{
    if (fam == "OEM") { return std::min<size_t>(len, 4); }
    if (fam == "WIDE") { return len == 8 ? 8 : len == 2 ? 4 : 1; }
    return 1;
}
size_t Pad(size_t p, size_t a) { return a && p % a ? a - p % a : 0; }

struct Held { MP m; std::string family; MessageDefinition::ConstPtr d; std::string snap; std::string from; }; // a definition somebody holds
struct HeldE { EP m; EnumDefinition::ConstPtr d; };

struct ModelMsg { MP m; std::string family; };
struct Model
{
    bool hasMeta = false;
    std::string family;
    std::vector<ModelMsg> msgs;
    std::vector<HeldE> enums;
    void Remove(uint32_t id) { for (size_t i = 0; i < msgs.size(); ++i) { if (msgs[i].m->id == id) { msgs.erase(msgs.begin() + static_cast<long>(i)); return; } } }
    void Append(const MP& m) { Remove(m->id); msgs.push_back({m, family}); }
    void RemoveE(const std::string& n) { for (size_t i = 0; i < enums.size(); ++i) { if (enums[i].m->name == n) { enums.erase(enums.begin() + static_cast<long>(i)); return; } } }
    void AppendE(const HeldE& e) { RemoveE(e.m->name); enums.push_back(e); }
    const ModelMsg* ByName(const std::string& n) const { for (size_t i = msgs.size(); i--;) { if (msgs[i].m->name == n) { return &msgs[i]; } } return nullptr; }
    const ModelMsg* ById(uint32_t id) const { for (auto& x : msgs) { if (x.m->id == id) { return &x; } } return nullptr; }
    const HeldE* EById(const std::string& n) const { for (size_t i = enums.size(); i--;) { if (enums[i].m->id == n) { return &enums[i]; } } return nullptr; }
    const HeldE* EByName(const std::string& n) const { for (size_t i = enums.size(); i--;) { if (enums[i].m->name == n) { return &enums[i]; } } return nullptr; }
};

// ------------------------------------------------------------------ building
FieldInfo::ConstPtr Build(const std::vector<FS>& fs, const std::string& fam);
BaseField::Ptr Build(const FS& s, const std::string& fam)
{
    switch (s.type)
    {
    case FIELD_TYPE::ENUM: return std::make_shared<EnumField>(s.name, s.type, s.conv, s.dt, s.enumId);
    case FIELD_TYPE::FIXED_LENGTH_ARRAY:
    case FIELD_TYPE::VARIABLE_LENGTH_ARRAY:
    case FIELD_TYPE::STRING: return std::make_shared<ArrayField>(s.name, s.type, s.conv, s.dt, s.arrLen);
    case FIELD_TYPE::FIELD_ARRAY: return std::make_shared<FieldArrayField>(s.name, s.type, s.conv, s.dt, s.arrLen, Build(s.sub, fam));
    default: return std::make_shared<BaseField>(s.name, s.type, s.conv, s.dt);
    }
}
FieldInfo::ConstPtr Build(const std::vector<FS>& fs, const std::string& fam)
{
    std::vector<BaseField::Ptr> v;
    for (auto& f : fs) { v.push_back(Build(f, fam)); }
    return BuildFieldInfo(v, fam);
}
MessageDefinition::ConstPtr Build(const MS& s, const std::string& fam)
{
    std::unordered_map<uint32_t, FieldInfo::ConstPtr> fi;
    for (auto& d : s.defs) { fi[d.crc] = Build(d.f, fam); }
    return std::make_shared<MessageDefinition>(s.oid, s.id, s.name, s.desc, s.latest, std::move(fi));
}
EnumDefinition::ConstPtr Build(const ES& s)
{
    std::vector<EnumDataType> v;
    for (auto& [val, n] : s.v) { v.push_back({val, n, "d" + n}); }
    return std::make_shared<EnumDefinition>(s.id, s.name, v);
}

// ------------------------------------------------------------------ observing
//! Everything a definition says, with the computed layout and the identity of every enumeration it resolves to.
void Snap(std::ostringstream& o, const FieldInfo& fi)
{
    o << "{" << fi.fixedFieldBytes << "/" << fi.varFieldCount << ":";
    for (auto& f : fi.messageOrderedFields)
    {
        o << f->name << "," << static_cast<int>(f->type) << "," << f->conversion << "," << static_cast<int>(f->dataType.name) << "," << f->dataType.length << "@" << f->index << "," << f->isString << f->isCsv;
        if (auto* e = dynamic_cast<const EnumField*>(f.get())) { o << "=" << e->enumId << "(" << e->enumDef.get() << ")"; }
        if (auto* a = dynamic_cast<const ArrayField*>(f.get())) { o << "[" << a->arrayLength << "," << a->arrayLengthRef << "," << static_cast<int>(a->arrayLengthFieldSize) << "]"; }
        if (auto* a = dynamic_cast<const FieldArrayField*>(f.get())) { o << a->fieldSize; Snap(o, *a->fieldInfo); }
        o << ";";
    }
    o << "}";
}
std::string Snap(const MessageDefinition& d)
{
    std::ostringstream o;
    o << d._id << "|" << d.logID << "|" << d.name << "|" << d.description << "|" << d.latestMessageCrc;
    std::map<uint32_t, const FieldInfo*> m;
    for (auto& [c, f] : d.fieldInfo) { m[c] = f.get(); }
    for (auto& [c, f] : m) { o << "|" << c; Snap(o, *f); }
    return o.str();
}
void CheckFields(const FieldInfo& got, const std::vector<FS>& want, const std::string& fam, const MessageDatabase& db, const std::string& w)
{
    VT_CHECK(got.messageOrderedFields.size() == want.size(), "content", w << ": " << got.messageOrderedFields.size() << " fields instead of " << want.size());
    size_t fixed = 0, var = 0;
    for (size_t i = 0; i < want.size(); ++i)
    {
        auto& s = want[i];
        auto& f = got.messageOrderedFields[i];
        std::string x = w + "." + s.name;
        VT_CHECK(f && f->name == s.name && f->type == s.type && f->conversion == s.conv && f->dataType.name == s.dt, "content", x << ": another field, '" << (f ? f->name : "null") << "'");
        size_t idx;
        bool isVar = s.type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY || s.type == FIELD_TYPE::STRING || s.type == FIELD_TYPE::FIELD_ARRAY;
        if (isVar) { idx = var++; }
        else
        {
            size_t len = DataTypeSize(s.dt);
            fixed += Pad(fixed, AlignOf(fam, len));
            idx = fixed;
            fixed += len * (s.type == FIELD_TYPE::FIXED_LENGTH_ARRAY ? s.arrLen : 1);
        }
        VT_CHECK(f->index == idx, "layout", x << ": at " << f->index << " instead of " << idx << " for family '" << fam << "'");
        if (s.type == FIELD_TYPE::ENUM)
        {
            auto e = std::dynamic_pointer_cast<const EnumField>(f);
            VT_CHECK(e && e->enumId == s.enumId, "content", x << ": enum field");
            VT_CHECK(e->enumDef == db.GetEnumDefId(s.enumId), "enum_resolution",
                     x << ": enumeration '" << s.enumId << "' resolved to " << (e->enumDef ? "'" + e->enumDef->name + "'" : "nothing") << " but the database has "
                       << (db.GetEnumDefId(s.enumId) ? "'" + db.GetEnumDefId(s.enumId)->name + "'" : "nothing"));
        }
        if (auto a = std::dynamic_pointer_cast<const ArrayField>(f)) { VT_CHECK(a->arrayLength == s.arrLen, "content", x << ": array of " << a->arrayLength); }
        if (s.type == FIELD_TYPE::FIELD_ARRAY)
        {
            auto a = std::dynamic_pointer_cast<const FieldArrayField>(f);
            VT_CHECK(a && a->fieldInfo, "content", x << ": field array");
            CheckFields(*a->fieldInfo, s.sub, fam, db, x);
        }
    }
    VT_CHECK(got.fixedFieldBytes == fixed && got.varFieldCount == var, "layout", w << ": " << got.fixedFieldBytes << " bytes, " << got.varFieldCount << " variable, instead of " << fixed << ", " << var << " for family '" << fam << "'");
    vt::Eval();
}
void CheckMsg(const MessageDefinition::ConstPtr& d, const ModelMsg& e, const MessageDatabase& db, const std::string& w)
{
    auto& m = *e.m;
    VT_CHECK(d != nullptr, "lookup", w << ": not found");
    VT_CHECK(d->logID == m.id && d->name == m.name && d->_id == m.oid && d->description == m.desc && d->latestMessageCrc == m.latest, "lookup", w << ": found " << d->name << "/" << d->logID << " '" << d->_id << "' instead of " << m.name << "/" << m.id << " '" << m.oid << "'");
    VT_CHECK(d->fieldInfo.size() == m.defs.size(), "content", w << ": " << d->fieldInfo.size() << " definitions");
    for (auto& x : m.defs)
    {
        auto it = d->fieldInfo.find(x.crc);
        VT_CHECK(it != d->fieldInfo.end() && it->second, "content", w << ": no definition " << x.crc);
        CheckFields(*it->second, x.f, e.family, db, w);
    }
}

struct Db { MessageDatabase::Ptr p; Model m; std::string label; };

struct World
{
    Rng& r;
    std::vector<std::unique_ptr<Db>> dbs;
    std::vector<Held> held;
    std::vector<HeldE> pool;
    std::set<std::string> msgNames{"NONE", ""}, enumNames{"none", ""}, enumIds{"nil", ""};
    std::set<uint32_t> ids{0, 70000};
    std::string log;
    int serial = 0;
    explicit World(Rng& x) : r(x) {}

    FS GenField(int depth)
    {
        FS f;
        f.name = "f" + std::to_string(serial++);
        static const std::vector<std::pair<DATA_TYPE, const char*>> k = {{DATA_TYPE::UCHAR, "%u"}, {DATA_TYPE::USHORT, "%hu"}, {DATA_TYPE::ULONG, "%lu"}, {DATA_TYPE::DOUBLE, "%.3lf"}, {DATA_TYPE::LONGLONG, "%lld"}, {DATA_TYPE::CHAR, "%c"}, {DATA_TYPE::FLOAT, "%f"}};
        auto& t = k[r.Below(k.size())];
        f.dt = t.first;
        f.conv = t.second;
        switch (r.Below(depth < 3 ? 9 : 7))
        {
        case 0: case 1: case 2: break;
        case 3: f.type = FIELD_TYPE::ENUM; f.dt = r.PickOf({DATA_TYPE::ULONG, DATA_TYPE::UCHAR}); f.conv = "%d"; f.enumId = "e" + std::to_string(r.Below(5)); enumIds.insert(f.enumId); break;
        case 4: f.type = FIELD_TYPE::FIXED_LENGTH_ARRAY; f.arrLen = static_cast<uint32_t>(r.Range(1, 5)); break;
        case 5: f.type = FIELD_TYPE::VARIABLE_LENGTH_ARRAY; f.arrLen = static_cast<uint32_t>(r.Range(1, 5)); break;
        case 6: f.type = FIELD_TYPE::STRING; f.dt = DATA_TYPE::CHAR; f.conv = r.Chance(0.8) ? "%s" : ""; f.arrLen = 8; break;
        default:
            f.type = FIELD_TYPE::FIELD_ARRAY;
            f.dt = DATA_TYPE::UNKNOWN;
            f.conv = "";
            f.arrLen = static_cast<uint32_t>(r.Range(1, 4));
            for (int i = static_cast<int>(r.Range(1, 4)); i; --i) { f.sub.push_back(GenField(depth + 1)); }
        }
        return f;
    }
    MP GenMsg()
    {
        auto m = std::make_shared<MS>();
        m->id = static_cast<uint32_t>(r.Chance(0.9) ? r.Range(1, 7) : r.PickOf<int64_t>({0, 65535, 0x7FFFFFFF, 0x80000000LL, 0xFFFFFFFFLL}));
        m->name = "M" + std::to_string(r.Below(6)); // names and numbers collide often, separately
        if (r.Chance(0.1)) { m->name += std::string(40, 'L'); } // not held in the string object itself
        m->oid = "o" + std::to_string(serial++);
        m->desc = r.Chance(0.5) ? "" : "description " + m->oid;
        int nd = r.Chance(0.3) ? 2 : 1;
        for (int i = 0; i < nd; ++i)
        {
            DS d;
            d.crc = static_cast<uint32_t>(i + r.Below(2) * 100);
            if (i && d.crc == m->defs[0].crc) { continue; }
            for (int k = static_cast<int>(r.Range(0, 5)); k; --k) { d.f.push_back(GenField(0)); }
            m->defs.push_back(d);
        }
        m->latest = m->defs[r.Below(m->defs.size())].crc;
        ids.insert(m->id);
        msgNames.insert(m->name);
        return m;
    }
    HeldE GenEnum()
    {
        if (!pool.empty() && r.Chance(0.2)) { return r.Pick(pool); }
        auto e = std::make_shared<ES>();
        e->id = "e" + std::to_string(r.Below(5)) + (r.Chance(0.1) ? std::string(40, 'i') : "");
        e->name = "E" + std::to_string(r.Below(5)) + (r.Chance(0.1) ? std::string(40, 'n') : "");
        for (int k = static_cast<int>(r.Below(4)); k; --k) { e->v.emplace_back(static_cast<uint32_t>(serial++), "v" + std::to_string(serial)); }
        enumIds.insert(e->id);
        enumNames.insert(e->name);
        HeldE h{e, Build(*e)};
        if (pool.size() < 12) { pool.push_back(h); }
        return h;
    }
    void Hold(const MP& m, const std::string& fam, const MessageDefinition::ConstPtr& d, const std::string& from)
    {
        if (held.size() < 24) { held.push_back({m, fam, d, Snap(*d), from}); }
        else { held[r.Below(held.size())] = {m, fam, d, Snap(*d), from}; }
    }
    //! A definition to append: a new one, one looked up from some database, or one that is held.
    Held Source(const std::string& fam)
    {
        if (!held.empty() && r.Chance(0.25)) { return r.Pick(held); }
        if (!dbs.empty() && r.Chance(0.35))
        {
            auto& d = *dbs[r.Below(dbs.size())];
            if (!d.m.msgs.empty())
            {
                size_t i = r.Below(d.m.msgs.size());
                auto def = d.p->GetMsgDef(static_cast<int32_t>(d.m.msgs[i].m->id));
                if (def) { return {d.m.msgs[i].m, d.m.msgs[i].family, def, "", ""}; }
            }
        }
        auto m = GenMsg();
        auto def = Build(*m, fam);
        if (r.Chance(0.5)) { Hold(m, fam, def, "appended"); }
        return {m, fam, def, "", ""};
    }
    std::string Family() { return r.PickOf<std::string>({"OEM", "OEM", "WIDE", "", "NOSUCH"}); }

    void NewDb()
    {
        auto d = std::make_unique<Db>();
        d->label = "db" + std::to_string(serial++);
        switch (r.Below(4))
        {
        case 0: d->p = std::make_shared<MessageDatabase>(); log += d->label + " empty; "; break;
        case 1: // constructed from definitions of its own
        case 2: // ... or from definitions of others, all of one family
        {
            bool meta = r.Chance(0.7);
            std::string fam = meta ? Family() : "";
            std::vector<MessageDefinition::ConstPtr> ms;
            std::vector<EnumDefinition::ConstPtr> es;
            std::set<uint32_t> used;
            std::set<std::string> usedE;
            for (int i = static_cast<int>(r.Below(5)); i; --i)
            {
                Held h = r.Chance(0.4) ? Source(fam) : Held{};
                if (!h.d) { h.m = GenMsg(); h.family = fam; h.d = Build(*h.m, fam); if (r.Chance(0.3)) { Hold(h.m, fam, h.d, "constructed"); } }
                if (!used.insert(h.m->id).second) { continue; }
                ms.push_back(h.d);
                d->m.msgs.push_back({h.m, h.family}); // the caller answers for the layout
            }
            for (int i = static_cast<int>(r.Below(4)); i; --i)
            {
                HeldE h = GenEnum();
                if (!usedE.insert(h.m->name).second) { continue; }
                es.push_back(h.d);
                d->m.enums.push_back(h);
            }
            if (meta)
            {
                auto md = std::make_shared<DbMetadata>();
                md->messageFamily = fam;
                md->version = "1.2.3";
                d->p = std::make_shared<MessageDatabase>(std::move(ms), std::move(es), md);
                d->m.hasMeta = true;
                d->m.family = fam;
            }
            else { d->p = std::make_shared<MessageDatabase>(std::move(ms), std::move(es)); }
            log += d->label + " constructed '" + fam + "' of " + std::to_string(d->m.msgs.size()) + "; ";
            break;
        }
        default:
            if (dbs.empty()) { d->p = std::make_shared<MessageDatabase>(); break; }
            {
                auto& o = *dbs[r.Below(dbs.size())];
                if (r.Chance(0.7)) { d->p = std::make_shared<MessageDatabase>(*o.p); }
                else { d->p = std::make_shared<MessageDatabase>(); *d->p = *o.p; }
                d->m = o.m;
                log += d->label + " = " + o.label + "; ";
                vt::Count("copies");
            }
        }
        dbs.push_back(std::move(d));
    }
    void Step()
    {
        if (dbs.empty() || (dbs.size() < 4 && r.Chance(0.12))) { NewDb(); return; }
        size_t k = r.Below(dbs.size());
        auto& d = *dbs[k];
        switch (r.Below(16))
        {
        case 0: case 1: case 2:
        {
            std::vector<MessageDefinition::ConstPtr> v;
            std::vector<MP> mv;
            for (int i = static_cast<int>(r.Below(4)); i; --i) { auto h = Source(Family()); v.push_back(h.d); mv.push_back(h.m); }
            log += d.label + " append";
            for (auto& x : mv) { log += " " + x->name + "/" + std::to_string(x->id); }
            log += "; ";
            d.p->AppendMessages(v);
            for (auto& x : mv) { d.m.Append(x); }
            vt::Count("append");
            break;
        }
        case 3: case 4:
        {
            std::vector<EnumDefinition::ConstPtr> v;
            std::vector<HeldE> hv;
            for (int i = static_cast<int>(r.Below(3)); i; --i) { auto h = GenEnum(); v.push_back(h.d); hv.push_back(h); }
            log += d.label + " enums";
            for (auto& x : hv) { log += " " + x.m->name + "/" + x.m->id; }
            log += "; ";
            d.p->AppendEnumerations(v);
            for (auto& x : hv) { d.m.AppendE(x); }
            vt::Count("append_enums");
            break;
        }
        case 5: case 6:
        {
            auto& o = *dbs[r.Below(dbs.size())];
            log += d.label + " merge " + o.label + "; ";
            auto src = o.m;
            if (&o == &d) // appending a list to itself leaves what there is
            {
                vt::Count("merge_self");
                if (r.Chance(0.5)) { d.p->Merge(*o.p); }
                else { d.p->AppendEnumerations(d.p->EnumDefinitions()); d.p->AppendMessages(d.p->MessageDefinitions()); }
            }
            else { d.p->Merge(*o.p); }
            for (auto& x : src.enums) { d.m.AppendE(x); }
            for (auto& x : src.msgs) { d.m.Append(x.m); }
            vt::Count("merge");
            break;
        }
        case 7: case 8:
        {
            uint32_t id = !d.m.msgs.empty() && r.Chance(0.8) ? d.m.msgs[r.Below(d.m.msgs.size())].m->id : static_cast<uint32_t>(r.Below(9));
            log += d.label + " remove " + std::to_string(id) + "; ";
            d.p->RemoveMessage(id);
            d.m.Remove(id);
            vt::Count("remove");
            break;
        }
        case 9: case 10:
        {
            if (!d.m.enums.empty() && r.Chance(0.8))
            {
                auto e = d.m.enums[r.Below(d.m.enums.size())];
                log += d.label + " remove enum " + e.m->name + "; ";
                if (r.Chance(0.5)) { d.p->RemoveEnumeration(e.m->name); }
                else { for (auto& x : d.p->EnumDefinitions()) { if (x->name == e.m->name) { std::string_view own = x->name; d.p->RemoveEnumeration(own); break; } } }
                d.m.RemoveE(e.m->name);
            }
            else { d.p->RemoveEnumeration("no such enumeration"); }
            vt::Count("remove_enum");
            break;
        }
        case 11: case 12:
        {
            auto f = Family();
            log += d.label + " family '" + f + "'; ";
            d.p->SetMessageFamily(f);
            d.m.hasMeta = true;
            d.m.family = f;
            for (auto& x : d.m.msgs) { x.family = f; }
            vt::Count("family");
            break;
        }
        case 13: // look a definition up and keep it
            if (!d.m.msgs.empty())
            {
                auto& x = d.m.msgs[r.Below(d.m.msgs.size())];
                auto def = d.p->GetMsgDef(static_cast<int32_t>(x.m->id));
                if (def) { Hold(x.m, x.family, def, "looked up from " + d.label); }
            }
            break;
        case 14: // a definition that cannot be laid out is refused, and nothing happens
        {
            std::vector<MessageDefinition::ConstPtr> v;
            auto h = Source("");
            v.push_back(h.d);
            auto fi = std::make_shared<FieldInfo>();
            fi->messageOrderedFields.push_back(std::make_shared<BaseField>("odd", FIELD_TYPE::UNKNOWN, "%d", DATA_TYPE::INT));
            v.push_back(std::make_shared<MessageDefinition>("odd", 3U, "M1", "", 0U, std::unordered_map<uint32_t, FieldInfo::ConstPtr>{{0U, fi}}));
            log += d.label + " refuses; ";
            bool threw = false;
            try { d.p->AppendMessages(v); }
            catch (const std::exception&) { threw = true; }
            VT_CHECK(threw, "refusal", log << "a field of unknown type was laid out");
            vt::Count("refused");
            break;
        }
        default:
            if (dbs.size() > 1) { log += d.label + " destroyed; "; dbs.erase(dbs.begin() + static_cast<long>(k)); vt::Count("destroyed"); }
            break;
        }
    }
    void Check()
    {
        for (auto& dp : dbs)
        {
            auto& d = *dp;
            try { CheckOne(d); }
            catch (const vt::Violation& x) { vt::Fail(x.key, d.label + ": " + x.what() + " after " + (log.size() > 1500 ? "..." + log.substr(log.size() - 1500) : log)); }
        }
        for (auto& h : held)
        {
            VT_CHECK(Snap(*h.d) == h.snap, "held", "a definition that was " << h.from << " changed from\n" << h.snap << "\nto\n" << Snap(*h.d) << "\nafter " << log);
            vt::Eval();
        }
    }
    void CheckOne(Db& d)
    {
        auto& p = *d.p;
        auto md = p.GetDbMetadata();
        VT_CHECK((md != nullptr) == d.m.hasMeta, "metadata", "metadata " << (md ? "present" : "absent"));
        if (md) { VT_CHECK(md->messageFamily == d.m.family, "metadata", "family '" << md->messageFamily << "' instead of '" << d.m.family << "'"); }
        VT_CHECK(p.MessageDefinitions().size() == d.m.msgs.size(), "definitions", p.MessageDefinitions().size() << " messages instead of " << d.m.msgs.size());
        VT_CHECK(p.EnumDefinitions().size() == d.m.enums.size(), "definitions", p.EnumDefinitions().size() << " enumerations instead of " << d.m.enums.size());
        std::set<uint32_t> seen;
        for (auto& x : p.MessageDefinitions()) { VT_CHECK(x && seen.insert(x->logID).second && d.m.ById(x->logID), "definitions", "lists a message it does not have"); }
        for (auto& x : d.m.msgs)
        {
            auto def = p.GetMsgDef(static_cast<int32_t>(x.m->id));
            CheckMsg(def, x, p, "number " + std::to_string(x.m->id));
            VT_CHECK(std::find(p.MessageDefinitions().begin(), p.MessageDefinitions().end(), def) != p.MessageDefinitions().end(), "definitions", "finds a message it does not list");
        }
        for (auto i : ids) { if (!d.m.ById(i)) { VT_CHECK(p.GetMsgDef(static_cast<int32_t>(i)) == nullptr, "lookup", "found number " << i << " that it does not have"); } }
        for (auto& n : msgNames)
        {
            auto def = p.GetMsgDef(std::string_view(n));
            auto* e = d.m.ByName(n);
            VT_CHECK((def != nullptr) == (e != nullptr), "lookup", "name '" << n << "' " << (def ? "found" : "not found"));
            if (e) { VT_CHECK(def == p.GetMsgDef(static_cast<int32_t>(e->m->id)), "lookup", "name '" << n << "' finds " << def->logID << " '" << def->_id << "' instead of " << e->m->id); }
        }
        for (auto& n : enumNames)
        {
            auto def = p.GetEnumDefName(n);
            auto* e = d.m.EByName(n);
            VT_CHECK(def == (e ? e->d : nullptr), "enum_lookup", "enumeration name '" << n << "' finds " << (def ? def->_id : "nothing") << " instead of " << (e ? e->m->id : "nothing"));
        }
        for (auto& n : enumIds)
        {
            auto def = p.GetEnumDefId(n);
            auto* e = d.m.EById(n);
            VT_CHECK(def == (e ? e->d : nullptr), "enum_lookup", "enumeration id '" << n << "' finds " << (def ? def->name : "nothing") << " instead of " << (e ? e->m->name : "nothing"));
        }
        for (auto& h : d.m.enums)
        {
            VT_CHECK(h.d->name == h.m->name && h.d->_id == h.m->id && h.d->enumerators.size() == h.m->v.size(), "enum_content", "enumeration changed");
            for (auto& [v, n] : h.m->v)
            {
                auto a = h.d->nameValue.find(n);
                auto b = h.d->valueName.find(v);
                VT_CHECK(a != h.d->nameValue.end() && a->second == v && b != h.d->valueName.end() && b->second == n, "enum_content", "enumerator " << n << " changed");
            }
        }
    }
};
struct Reg
{
    Reg() { MessageDatabase::RegisterAlignmentFunction("WIDE", [](size_t len, uintptr_t start, uintptr_t ptr) { size_t a = len == 8 ? 8 : len == 2 ? 4 : 1; size_t o = (ptr - start) % a; return o ? a - o : size_t{0}; }); }
} gReg;
} // namespace

VT_SUITE(history)
{
    World w(rng);
    int n = static_cast<int>(rng.Range(4, 40));
    for (int i = 0; i < n; ++i)
    {
        w.Step();
        w.Check();
        vt::Count("steps");
    }
    vt::Distinct(vt::HashStr(w.log));
    if (rng.Chance(0.002)) { vt::Sample(w.log.substr(0, 400)); }
}
VT_MAIN()
