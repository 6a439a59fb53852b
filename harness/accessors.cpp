// C25: what is read and set through the accessors of decoded and default-constructed messages, against a model of each message; invalid accesses raise
// an exception, change nothing, and (under the sanitizers) touch nothing outside of the message.
#include <novatel_edie/decoders/common/json_db_reader.hpp>

#include "codec.hpp"

using namespace cx;

namespace {

struct Msg
{
    CompositeField cf;
    const m::MsgM* mm = nullptr;
    const m::DefM* def = nullptr;
    FieldInfo::ConstPtr fi;
    Body b;
    bool exact = true; // the fixed bytes are known exactly
};

//! Reads the fields of a record by their names.
template <typename R> struct Named
{
    const R& r;
    template <typename V> V GetFieldValue(const BaseField& d, size_t i = 0) const { return r.template GetFieldValueByName<V>(d.name, i); }
};

uint64_t Bits(bool v) { return v ? 1 : 0; }
template <typename V> uint64_t Bits(V v)
{
    uint64_t u = 0;
    memcpy(&u, &v, sizeof v);
    return u;
}
std::string Trim(std::string g)
{
    size_t z = g.find('\0');
    if (z != std::string::npos && g.find_first_not_of('\0', z) == std::string::npos) { g.resize(z); }
    return g;
}

#define SAME(cond, path, msg)                                                                                                                        \
    do                                                                                                                                               \
    {                                                                                                                                                \
        if (!(cond)) { vt::Fail(key + "/" + how, vt::MsgStream() << (path) << ": " << msg); }                                                \
    } while (0)

template <typename R> void ReadTyped(const R& rec, const FieldInfo& fi, const std::vector<FieldM>& fs, const Body& b, const std::string& key, const std::string& how, const std::string& path);

void ReadRows(const FieldArray& a, const FieldInfo& fi, const std::vector<FieldM>& fs, const std::vector<Body>& recs, const std::string& key, const std::string& how, const std::string& path)
{
    SAME(a.size() == recs.size(), path, a.size() << " records instead of " << recs.size());
    SAME(a.empty() == recs.empty(), path, "empty() of " << recs.size() << " records");
    SAME(a.GetFieldInfo() == &fi, path, "has another definition");
    for (size_t k = 0; k < recs.size(); ++k) { ReadTyped(a[k], fi, fs, recs[k], key, how, path + "[" + std::to_string(k) + "]"); }
    size_t k = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++k)
    {
        SAME(k < recs.size(), path, "iterates over too many records");
        ReadTyped(*it, fi, fs, recs[k], key, how + "_iter", path + "<" + std::to_string(k) + ">");
    }
    SAME(k == recs.size(), path, "iterated over " << k << " of " << recs.size() << " records");
    // elements of records through the array itself
    for (size_t r = 0; r < recs.size(); ++r)
    {
        for (size_t i = 0; i < fs.size(); ++i)
        {
            if (fs[i].kind != K::Simple) { continue; }
            const BaseField& d = *fi.messageOrderedFields[i];
            WithType(fs[i], [&](auto tag) {
                using V = decltype(tag);
                const uint64_t want = recs[r][i].e[0], w = std::is_same_v<V, bool> ? (want & 0xFF) != 0 : want;
                SAME(Bits(a.GetFieldValue<V>(d, r)) == w, path, "row accessor of " << d.name);
                SAME(Bits(a.GetFieldValueByName<V>(d.name, r)) == w, path, "named row accessor of " << d.name);
            });
        }
    }
}

template <typename R> void ReadTyped(const R& rec, const FieldInfo& fi, const std::vector<FieldM>& fs, const Body& b, const std::string& key, const std::string& how, const std::string& path)
{
    SAME(fi.messageOrderedFields.size() == fs.size(), path, "definition has " << fi.messageOrderedFields.size() << " fields");
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const FieldM& f = fs[i];
        const Val& v = b[i];
        const BaseField& d = *fi.messageOrderedFields[i];
        const std::string p = path + "." + f.name;
        try
        {
            switch (f.kind)
            {
            case K::Simple: case K::Enum: case K::Fixed: case K::Var:
                for (size_t k = 0; k < v.e.size(); ++k)
                {
                    uint64_t g = ReadElem(rec, d, f, k);
                    SAME(ExactEq(f, v.e[k], g), p, "element " << k << ": want " << std::hex << v.e[k] << " got " << g);
                }
                break;
            case K::Str: {
                std::string g = rec.template GetFieldValue<std::string>(d);
                SAME(Trim(g) == v.s, p, "want \"" << vt::Esc(v.s) << "\" got \"" << vt::Esc(g) << "\"");
                break;
            }
            case K::Arr: {
                const auto& fd = dynamic_cast<const FieldArrayField&>(d);
                ReadRows(rec.template GetFieldValue<FieldArray>(d), *fd.fieldInfo, f.sub, v.recs, key, how, p);
                break;
            }
            }
            vt::Count("typed reads");
        }
        catch (const vt::Violation&) { throw; }
        catch (const std::exception& e) { vt::Fail(key + "/" + how + "_threw", p + ": accessor threw " + e.what()); }
    }
}

void ReadVariant(const FieldValueVariant& x, const BaseField& d, const FieldM& f, const Val& v, const std::string& key, const std::string& how, const std::string& p);

void ReadIterator(const CompositeField& cf, const std::vector<FieldM>& fs, const Body& b, const std::string& key, const std::string& how, const std::string& path)
{
    size_t i = 0;
    for (auto it = cf.begin(); it != cf.end(); ++it, ++i)
    {
        SAME(i < fs.size(), path, "iterates over too many fields");
        const auto entry = *it;
        SAME(entry.first->name == fs[i].name, path, "field " << i << " is " << entry.first->name << " instead of " << fs[i].name);
        ReadVariant(entry.second, *entry.first, fs[i], b[i], key, how, path + "." + fs[i].name);
    }
    SAME(i == fs.size(), path, "iterated over " << i << " of " << fs.size() << " fields");
    vt::Count("messages and records iterated");
}

void ReadVariant(const FieldValueVariant& x, const BaseField& d, const FieldM& f, const Val& v, const std::string& key, const std::string& how, const std::string& p)
{
    const auto scalar = [&](auto tag) {
        using V = decltype(tag);
        SAME(std::holds_alternative<V>(x), p, "variant holds alternative " << x.index());
        SAME(ExactEq(f, v.e[0], Bits(std::get<V>(x))), p, "want " << std::hex << v.e[0] << " got " << Bits(std::get<V>(x)));
    };
    switch (f.kind)
    {
    case K::Simple: WithType(f, scalar); break;
    case K::Enum:
        if (f.size == 1) { scalar(int8_t{}); }
        else if (f.size == 2) { scalar(int16_t{}); }
        else { scalar(int32_t{}); }
        break;
    case K::Fixed:
        WithType(f, [&](auto tag) {
            using V = TypedBuffer<decltype(tag)>;
            SAME(std::holds_alternative<V>(x), p, "variant holds alternative " << x.index());
            const auto& a = std::get<V>(x);
            SAME(a.size() == v.e.size() && a.empty() == v.e.empty(), p, a.size() << " elements instead of " << v.e.size());
            size_t k = 0;
            for (auto e : a)
            {
                SAME(k < v.e.size() && ExactEq(f, v.e[k], Bits(e)) && Bits(a[k]) == Bits(e), p, "element " << k);
                ++k;
            }
            SAME(k == v.e.size(), p, "iterated over " << k << " elements");
        });
        break;
    case K::Var:
        WithType(f, [&](auto tag) {
            using V = std::vector<std::conditional_t<std::is_same_v<decltype(tag), bool>, uint8_t, decltype(tag)>>;
            SAME(std::holds_alternative<V>(x), p, "variant holds alternative " << x.index());
            const auto& a = std::get<V>(x);
            SAME(a.size() == v.e.size(), p, a.size() << " elements instead of " << v.e.size());
            for (size_t k = 0; k < a.size(); ++k) { SAME(ExactEq(f, v.e[k], Bits(a[k])), p, "element " << k); }
        });
        break;
    case K::Str:
        SAME(std::holds_alternative<std::string>(x), p, "variant holds alternative " << x.index());
        SAME(Trim(std::get<std::string>(x)) == v.s, p, "want \"" << vt::Esc(v.s) << "\" got \"" << vt::Esc(std::get<std::string>(x)) << "\"");
        break;
    case K::Arr: {
        const auto& fd = dynamic_cast<const FieldArrayField&>(d);
        ReadRows(FieldArray(x, fd.fieldInfo.get()), *fd.fieldInfo, f.sub, v.recs, key, how, p);
        if (const auto* rows = std::get_if<CompositeFieldArray>(&x))
        {
            vt::Count("composite arrays read");
            for (size_t k = 0; k < rows->size(); ++k) { ReadIterator((*rows)[k], f.sub, v.recs[k], key, how, p + "[" + std::to_string(k) + "]"); }
        }
        else
        {
            vt::Count("flat arrays read");
            const auto& flat = std::get<FlatFieldArray>(x);
            SAME(flat.ByteSize() == flat.size() * fd.fieldInfo->fixedFieldBytes, p, "byte size " << flat.ByteSize());
            for (size_t k = 0; k < flat.size(); ++k)
            {
                for (size_t i = 0; i < f.sub.size(); ++i)
                {
                    if (f.sub[i].kind != K::Simple) { continue; }
                    const BaseField& sd = *fd.fieldInfo->messageOrderedFields[i];
                    WithType(f.sub[i], [&](auto tag) {
                        using V = decltype(tag);
                        SAME(ExactEq(f.sub[i], v.recs[k][i].e[0], Bits(flat.GetFieldValue<V>(sd, k))), p, "row " << k << " of the flat array, " << sd.name);
                        SAME(ExactEq(f.sub[i], v.recs[k][i].e[0], Bits(flat.GetFieldValueByName<V>(sd.name, k))), p, "row " << k << " of the flat array by name, " << sd.name);
                    });
                }
            }
        }
        break;
    }
    }
    vt::Count("variant reads");
}

std::string Bytes(const FieldM& f, const std::vector<uint64_t>& e)
{
    std::string s;
    for (uint64_t x : e) { m::PutLE(s, x, f.size); }
    return s;
}

//! Every accessor on every field.
void ReadAll(const Msg& x, const std::string& key)
{
    const auto& fs = x.def->f;
    std::string how = "typed";
    ReadTyped(x.cf, *x.fi, fs, x.b, key, "typed", "");
    {
        std::string e = Compare(Named<CompositeField>{x.cf}, *x.fi, fs, x.b, ExactEq); // arrays through their storage types
        if (!e.empty()) { vt::Fail(key + "/by_name", e); }
    }
    how = "variant";
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const BaseField& d = *x.fi->messageOrderedFields[i];
        try
        {
            ReadVariant(x.cf.GetFieldValueVariant(d), d, fs[i], x.b[i], key, "variant", "." + fs[i].name);
            if (const auto* ad = dynamic_cast<const ArrayField*>(&d)) { ReadVariant(x.cf.GetFieldValueVariant(*ad), d, fs[i], x.b[i], key, "variant_array", "." + fs[i].name); }
        }
        catch (const vt::Violation&) { throw; }
        catch (const std::exception& e) { vt::Fail(key + "/variant_threw", fs[i].name + ": " + e.what()); }
    }
    try { ReadIterator(x.cf, fs, x.b, key, "iterator", ""); }
    catch (const vt::Violation&) { throw; }
    catch (const std::exception& e) { vt::Fail(key + "/iterator_threw", e.what()); }
    how = "bytes";
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const FieldM& f = fs[i];
        const Val& v = x.b[i];
        const BaseField& d = *x.fi->messageOrderedFields[i];
        try
        {
            size_t n = x.cf.GetFieldSize(d), nb = x.cf.GetFieldByteSize(d);
            std::string want;
            switch (f.kind)
            {
            case K::Simple: case K::Enum: case K::Fixed: case K::Var:
                want = Bytes(f, v.e);
                SAME(n == v.e.size(), f.name, "size " << n << " of " << v.e.size() << " elements");
                SAME(nb == want.size(), f.name, "byte size " << nb << " instead of " << want.size());
                break;
            case K::Str:
                SAME(n >= v.s.size() && nb == n && n <= v.s.size() + 4, f.name, "size " << n << " of a string of " << v.s.size());
                want = v.s + std::string(n - v.s.size(), '\0');
                break;
            case K::Arr: SAME(n == v.recs.size(), f.name, "size " << n << " of " << v.recs.size() << " records"); break;
            }
            if (f.kind == K::Arr) { continue; }
            std::unique_ptr<unsigned char[]> buf(new unsigned char[nb + 1]);
            memset(buf.get(), 0xA5, nb + 1);
            size_t w = x.cf.WriteFieldToBuffer(d, reinterpret_cast<std::byte*>(buf.get()), nb);
            SAME(w == nb && memcmp(buf.get(), want.data(), nb) == 0 && buf[nb] == 0xA5, f.name, "wrote " << vt::Hex({reinterpret_cast<char*>(buf.get()), nb}) << " instead of " << vt::Hex(want));
            unsigned char* at = buf.get();
            uint32_t cap = static_cast<uint32_t>(nb) + 1;
            w = x.cf.WriteFieldToBuffer(d, &at, cap);
            SAME(w == nb && at == buf.get() + nb && cap == 1, f.name, "advanced by " << at - buf.get() << ", left " << cap);
            if (nb > 0)
            {
                std::unique_ptr<unsigned char[]> small(new unsigned char[nb - 1 + 1]);
                memset(small.get(), 0xA5, nb);
                try { w = x.cf.WriteFieldToBuffer(d, reinterpret_cast<std::byte*>(small.get()), nb - 1); }
                catch (const std::exception&) { w = 0; }
                SAME(w == 0 && small[nb - 1] == 0xA5, f.name, "wrote " << w << " bytes to too small a buffer");
            }
        }
        catch (const vt::Violation&) { throw; }
        catch (const std::exception& e) { vt::Fail(key + "/bytes_threw", f.name + ": " + e.what()); }
    }
    vt::Eval();
}

template <typename V> V Of(uint64_t u)
{
    if constexpr (std::is_same_v<V, bool>) { return (u & 0xFF) != 0; }
    else
    {
        V v;
        memcpy(&v, &u, sizeof v);
        return v;
    }
}
template <typename F> void WithStored(const FieldM& f, F&& fn)
{
    if (f.kind == K::Enum)
    {
        if (f.size == 1) { fn(int8_t{}); }
        else if (f.size == 2) { fn(int16_t{}); }
        else { fn(int32_t{}); }
    }
    else { WithType(f, fn); }
}
uint64_t AfterBool(const FieldM& f, uint64_t old, uint64_t v) { return f.kind == K::Simple && f.t == T::BOOL ? (old & ~0xFFULL) | ((v & 0xFF) != 0 ? 1 : 0) : v; }

void SetField(Rng& rng, CompositeField& cf, const BaseField& d, const FieldM& f, Val& cur, const Val& v);

void SetRecord(Rng& rng, CompositeField& cf, const FieldInfo& fi, const std::vector<FieldM>& fs, Body& cur, const Body& b)
{
    std::vector<size_t> order(fs.size());
    for (size_t i = 0; i < order.size(); ++i) { order[i] = i; }
    for (size_t i = order.size(); i > 1; --i) { std::swap(order[i - 1], order[rng.Below(i)]); }
    for (size_t i : order) { SetField(rng, cf, *fi.messageOrderedFields[i], fs[i], cur[i], b[i]); }
}
Body Zero(const std::vector<FieldM>& fs)
{
    Body b(fs.size());
    for (size_t i = 0; i < fs.size(); ++i)
    {
        if (fs[i].kind == K::Simple || fs[i].kind == K::Enum) { b[i].e = {0}; }
        if (fs[i].kind == K::Fixed) { b[i].e.assign(fs[i].arrLen, 0); }
    }
    return b;
}
void SetFlatRow(Rng& rng, FlatFieldArray& a, size_t row, const FieldInfo& fi, const std::vector<FieldM>& fs, Body& cur, const Body& b)
{
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const BaseField& d = *fi.messageOrderedFields[i];
        const FieldM& f = fs[i];
        WithStored(f, [&](auto tag) {
            using V = decltype(tag);
            if (f.kind == K::Fixed)
            {
                if constexpr (!std::is_same_v<V, bool>)
                {
                    std::vector<V> e;
                    for (uint64_t u : b[i].e) { e.push_back(Of<V>(u)); }
                    switch (rng.Below(3))
                    {
                    case 0: a.SetFieldValue(row, d, TypedBuffer<V>(reinterpret_cast<const std::byte*>(e.data()), e.size())); break;
                    case 1: a.SetFieldValue(row, d, std::vector<V>(e)); break;
                    default: a.SetFieldValue(row, d.index, e.data(), e.size()); break;
                    }
                }
                cur[i].e = b[i].e;
            }
            else
            {
                if (rng.Chance(0.5)) { a.SetFieldValue(row, d, Of<V>(b[i].e[0])); }
                else { a.SetFieldValue(row, d.index, Of<V>(b[i].e[0])); }
                cur[i].e = {AfterBool(f, cur[i].e[0], b[i].e[0])};
            }
        });
    }
}

//! Set one field to the given value, by one of the ways there are; the model follows.
void SetField(Rng& rng, CompositeField& cf, const BaseField& d, const FieldM& f, Val& cur, const Val& v)
{
    switch (f.kind)
    {
    case K::Simple: case K::Enum:
        WithStored(f, [&](auto tag) {
            using V = decltype(tag);
            const V x = Of<V>(v.e[0]);
            switch (rng.Below(3))
            {
            case 0: cf.SetFieldValue(d, V(x)); break;
            case 1: cf.SetFieldValue(d, x); break;
            default: cf.SetArrayElement<true>(d, 0, x); break;
            }
        });
        cur.e = {AfterBool(f, cur.e[0], v.e[0])};
        break;
    case K::Fixed:
        WithStored(f, [&](auto tag) {
            using V = decltype(tag);
            if constexpr (!std::is_same_v<V, bool>)
            {
                if (rng.Chance(0.5))
                {
                    std::vector<V> e;
                    for (uint64_t u : v.e) { e.push_back(Of<V>(u)); }
                    cf.SetFieldValue(d, TypedBuffer<V>(reinterpret_cast<const std::byte*>(e.data()), e.size()));
                }
                else
                {
                    for (size_t k = 0; k < v.e.size(); ++k) { cf.SetArrayElement<true>(d, k, Of<V>(v.e[k])); }
                }
            }
        });
        cur.e = v.e;
        break;
    case K::Var:
        WithStored(f, [&](auto tag) {
            using V = decltype(tag);
            if constexpr (!std::is_same_v<V, bool>)
            {
                std::vector<V> e;
                for (uint64_t u : v.e) { e.push_back(Of<V>(u)); }
                if (cur.e.size() == v.e.size() && rng.Chance(0.5))
                {
                    for (size_t k = 0; k < e.size(); ++k) { cf.SetArrayElement<false>(d, k, e[k]); }
                }
                else if (rng.Chance(0.5)) { cf.SetFieldValue(d, std::vector<V>(e)); }
                else
                {
                    const std::vector<V> keep = e;
                    cf.SetFieldValue(d, keep);
                    VT_CHECK(memcmp(keep.data(), e.data(), e.size() * sizeof(V)) == 0 && keep.size() == e.size(), "source", "setting " << f.name << " took the value of a constant");
                }
            }
        });
        cur.e = v.e;
        break;
    case K::Str:
        if (rng.Chance(0.5)) { cf.SetFieldValue(d, std::string(v.s)); }
        else
        {
            const std::string keep = v.s;
            cf.SetFieldValue(d, keep);
            VT_CHECK(keep == v.s, "source", "setting " << f.name << " took the value of a constant");
        }
        cur.s = v.s;
        break;
    case K::Arr: {
        const auto& fd = dynamic_cast<const FieldArrayField&>(d);
        cur.recs.assign(v.recs.size(), Zero(f.sub));
        if (fd.fieldInfo->varFieldCount == 0 && fd.fieldInfo->fixedFieldBytes != 0 && rng.Chance(0.5))
        {
            FlatFieldArray a(v.recs.size(), fd.fieldInfo.get());
            for (size_t k = v.recs.size(); k-- > 0;) { SetFlatRow(rng, a, k, *fd.fieldInfo, f.sub, cur.recs[k], v.recs[k]); }
            cf.SetFieldValue(d, std::move(a));
        }
        else
        {
            CompositeFieldArray rows;
            for (size_t k = 0; k < v.recs.size(); ++k)
            {
                CompositeField row(fd.fieldInfo);
                SetRecord(rng, row, *fd.fieldInfo, f.sub, cur.recs[k], v.recs[k]);
                rows.push_back(row);
            }
            if (rng.Chance(0.5)) { cf.SetFieldValue(d, std::move(rows)); }
            else { cf.SetFieldValue(d, rows); }
        }
        break;
    }
    }
    vt::Count("fields set");
}

struct World
{
    std::unique_ptr<Ctx> c;
    std::vector<MessageDefinition::ConstPtr> held;
    m::ValOpt vo;
};

FieldInfo::ConstPtr InfoOf(World& w, const m::MsgM& mm, const m::DefM& def)
{
    auto md = w.c->p->GetMsgDef(static_cast<int32_t>(mm.id));
    VT_CHECK(md != nullptr && md->fieldInfo.count(def.crc) == 1, "definition", "no definition of " << mm.name);
    return md->fieldInfo.at(def.crc);
}

Msg NewMessage(Rng& rng, World& w)
{
    Msg x;
    x.mm = &rng.Pick(w.c->db.msgs);
    x.def = &rng.Pick(x.mm->defs);
    x.fi = InfoOf(w, *x.mm, *x.def);
    switch (rng.Below(3))
    {
    case 0:
        x.cf = CompositeField(x.fi);
        x.b = Zero(x.def->f);
        vt::Count("messages default-constructed");
        break;
    default: {
        x.b = m::GenBody(rng, x.def->f, w.c->db, w.vo);
        const std::string bin = m::BinaryBody(x.def->f, x.b);
        Hdr h = GenHdr(rng, w.c->db, static_cast<uint16_t>(x.mm->id), x.def->crc);
        oem::MetaDataStruct md;
        FillMeta(md, h, x.mm->name, HEADER_FORMAT::BINARY, bin.size());
        oem::MessageDecoder dec(w.c->p);
        STATUS st;
        { // the message does not depend on the bytes it was decoded from
            std::unique_ptr<unsigned char[]> buf(new unsigned char[bin.size()]);
            memcpy(buf.get(), bin.data(), bin.size());
            st = dec.Decode(buf.get(), x.cf, md);
        }
        VT_CHECK(st == STATUS::SUCCESS, "decode", "decode returned " << static_cast<int>(st));
        vt::Count("messages decoded");
    }
    }
    return x;
}

std::string Sequence(const std::vector<std::string>& log)
{
    std::string s;
    for (auto& l : log) { s += (s.empty() ? "" : "; ") + l; }
    return s;
}

template <typename Fn> void MustThrow(const char* key, const std::string& what, Fn&& fn)
{
    bool threw = false;
    try { fn(); }
    catch (const std::exception&) { threw = true; }
    vt::Count("invalid accesses");
    VT_CHECK(threw, std::string("accepted/") + key, what << " raised no exception");
}
template <typename Fn> void MayThrow(Fn&& fn)
{
    try { fn(); }
    catch (const std::exception&) { vt::Count("foreign accesses refused"); }
    vt::Count("foreign accesses");
}
size_t BadIndex(Rng& rng, size_t n)
{
    switch (rng.Below(6))
    {
    case 0: case 1: return n;
    case 2: return n + 1 + rng.Below(8);
    case 3: return n + 1 + rng.Below(5000);
    case 4: return SIZE_MAX - rng.Below(4);
    default: return (SIZE_MAX >> (1 + rng.Below(4))) + 1 + rng.Below(3); // wraps to small offsets when scaled
    }
}
template <typename E> using Buf = TypedBuffer<E>;

//! Containers that are none of the given field's.
template <typename R> void WrongGet(Rng& rng, const R& rec, const BaseField& d, const FieldM& f, const std::string& where)
{
    const std::string n = where + f.name;
    const bool flat = std::is_same_v<R, FieldArrayRecordView>;
    (void)flat;
    if (f.kind != K::Str) { MustThrow("get", n + " as a string", [&] { (void)rec.template GetFieldValue<std::string>(d); }); }
    if (f.kind != K::Arr)
    {
        MustThrow("get", n + " as a flat array", [&] { (void)rec.template GetFieldValue<FlatFieldArray>(d); });
        MustThrow("get", n + " as a composite array", [&] { (void)rec.template GetFieldValue<CompositeFieldArray>(d); });
        MustThrow("get", n + " as a field array", [&] { (void)rec.template GetFieldValue<FieldArray>(d).size(); });
    }
    if (f.kind != K::Fixed) { MustThrow("get", n + " as a typed buffer", [&] { (void)rec.template GetFieldValue<Buf<uint8_t>>(d); }); }
    WithStored(f, [&](auto tag) {
        using V = decltype(tag);
        using Other = std::conditional_t<std::is_same_v<V, uint16_t>, int64_t, uint16_t>;
        if (f.kind != K::Var) { MustThrow("get", n + " as a vector", [&] { (void)rec.template GetFieldValue<std::vector<std::conditional_t<std::is_same_v<V, bool>, uint8_t, V>>>(d); }); }
        else
        {
            MustThrow("get", n + " as a vector of another type", [&] { (void)rec.template GetFieldValue<std::vector<Other>>(d); });
            MustThrow("get", n + " as an element of another type", [&] { (void)rec.template GetFieldValue<Other>(d, 0); });
        }
        if (f.kind == K::Str || f.kind == K::Arr)
        {
            MustThrow("get", n + " as a number", [&] { (void)rec.template GetFieldValue<uint32_t>(d); });
            MustThrow("get", n + " as a character", [&] { (void)rec.template GetFieldValue<int8_t>(d, rng.Below(3)); });
        }
    });
}

//! Element and row indices, and names, that do not exist.
template <typename R> void OutOfRange(Rng& rng, const R& rec, const BaseField& d, const FieldM& f, const Val& v, const std::string& where)
{
    const std::string n = where + f.name;
    if (f.kind == K::Fixed || f.kind == K::Var)
    {
        const size_t i = BadIndex(rng, v.e.size());
        WithStored(f, [&](auto tag) {
            using V = decltype(tag);
            MustThrow("element", n + " element " + std::to_string(i) + " of " + std::to_string(v.e.size()), [&] { (void)rec.template GetFieldValue<V>(d, i); });
            MustThrow("element", n + " element by name", [&] { (void)rec.template GetFieldValueByName<V>(f.name, i); });
            if (f.kind == K::Fixed)
            {
                const auto a = rec.template GetFieldValue<Buf<V>>(d);
                MustThrow("element", n + " element of the typed buffer", [&] { (void)a[i]; });
            }
        });
    }
    if (f.kind == K::Arr)
    {
        const auto& fd = dynamic_cast<const FieldArrayField&>(d);
        const size_t i = BadIndex(rng, v.recs.size());
        const auto a = rec.template GetFieldValue<FieldArray>(d);
        MustThrow("row", n + " row " + std::to_string(i) + " of " + std::to_string(v.recs.size()), [&] {
            const auto row = a[i];
            for (size_t k = 0; k < f.sub.size(); ++k)
            {
                if (f.sub[k].kind == K::Simple) { (void)ReadElem(row, *fd.fieldInfo->messageOrderedFields[k], f.sub[k], 0); }
            }
        });
        if (!f.sub.empty())
        {
            const BaseField& sd = *fd.fieldInfo->messageOrderedFields[0];
            MustThrow("row", n + " row of the array accessor", [&] { (void)a.template GetFieldValue<uint8_t>(sd, i); });
            MustThrow("row", n + " row of the named array accessor", [&] { (void)a.template GetFieldValueByName<uint8_t>(sd.name, i); });
        }
        MustThrow("name", n + " row with an unknown name", [&] { (void)a.template GetFieldValueByName<uint8_t>("no_such", 0); });
        if (!v.recs.empty())
        {
            const size_t r = rng.Below(v.recs.size());
            const auto row = a[r];
            MustThrow("name", n + " record with an unknown name", [&] { (void)row.template GetFieldValueByName<uint8_t>("no_such"); });
            for (size_t k = 0; k < f.sub.size(); ++k)
            {
                WrongGet(rng, row, *fd.fieldInfo->messageOrderedFields[k], f.sub[k], n + "[].");
                OutOfRange(rng, row, *fd.fieldInfo->messageOrderedFields[k], f.sub[k], v.recs[r][k], n + "[].");
            }
        }
        try
        {
            const auto flatArr = rec.template GetFieldValue<FlatFieldArray>(d);
            MustThrow("row", n + " row of the flat array", [&] { (void)flatArr[i]; });
            if (!f.sub.empty())
            {
                MustThrow("row", n + " row of the flat accessor", [&] { (void)flatArr.template GetFieldValue<uint8_t>(*fd.fieldInfo->messageOrderedFields[0], i); });
            }
            MustThrow("name", n + " flat array with an unknown name", [&] { (void)flatArr.template GetFieldValueByName<uint8_t>("no_such", 0); });
        }
        catch (const vt::Violation&) { throw; }
        catch (const std::exception&) {} // the other kind of array
    }
}

template <typename V> CompositeFieldArray NoRows() { return {}; }

//! Values that are none of the given field's.
void WrongSet(Rng& rng, CompositeField& cf, const BaseField& d, const FieldM& f, const Val& v)
{
    const std::string& n = f.name;
    if (f.kind != K::Str)
    {
        MustThrow("set", n + " to a string", [&] { cf.SetFieldValue(d, std::string("ABCDEFGHIJKLMNOP")); });
        const std::string keep = "X";
        MustThrow("set", n + " to a constant string", [&] { cf.SetFieldValue(d, keep); });
    }
    if (f.kind != K::Arr) { MustThrow("set", n + " to a composite array", [&] { cf.SetFieldValue(d, CompositeFieldArray{}); }); }
    std::vector<std::byte> raw(64, std::byte{0x5A});
    if (f.kind != K::Fixed) { MustThrow("set", n + " to a typed buffer", [&] { cf.SetFieldValue(d, Buf<uint8_t>(raw.data(), 4)); }); }
    WithStored(f, [&](auto tag) {
        using V = decltype(tag);
        using E = std::conditional_t<std::is_same_v<V, bool>, uint8_t, V>;
        using Other = std::conditional_t<std::is_same_v<V, uint16_t>, int64_t, uint16_t>;
        if (f.kind != K::Var) { MustThrow("set", n + " to a vector", [&] { cf.SetFieldValue(d, std::vector<E>(rng.Below(9), E{})); }); }
        else
        {
            MustThrow("set", n + " to a vector of another type", [&] { cf.SetFieldValue(d, std::vector<Other>(rng.Below(9), Other{1})); });
            MustThrow("set", n + " element of another type", [&] { cf.SetArrayElement<false>(d, 0, Other{1}); });
        }
        if (f.IsVar())
        {
            MustThrow("set", n + " to a number", [&] { cf.SetFieldValue(d, uint32_t{7}); });
            if (f.kind != K::Var) { MustThrow("set", n + " element", [&] { cf.SetArrayElement<false>(d, 0, uint8_t{7}); }); }
        }
        if (f.kind == K::Fixed || f.kind == K::Var)
        {
            const size_t i = BadIndex(rng, v.e.size());
            if (f.kind == K::Fixed) { MustThrow("set_element", n + " element " + std::to_string(i) + " of " + std::to_string(v.e.size()), [&] { cf.SetArrayElement<true>(d, i, V{}); }); }
            else { MustThrow("set_element", n + " element " + std::to_string(i) + " of " + std::to_string(v.e.size()), [&] { cf.SetArrayElement<false>(d, i, V{}); }); }
        }
        if (f.kind == K::Fixed)
        {
            const size_t have = v.e.size() * sizeof(V);
            std::vector<std::byte> more(have + 5 * sizeof(V), std::byte{0x5A});
            MustThrow("set", n + " to a longer typed buffer", [&] { cf.SetFieldValue(d, Buf<V>(more.data(), v.e.size() + 1 + rng.Below(4))); });
            if constexpr (!std::is_same_v<V, bool>) { MustThrow("set", n + " to a number", [&] { cf.SetFieldValue(d, V{1}); }); }
            if (f.size < 8)
            {
                std::vector<std::byte> wide(v.e.size() * 8 + 8, std::byte{0x5A});
                MustThrow("set", n + " to a typed buffer of wider elements", [&] { cf.SetFieldValue(d, Buf<int64_t>(wide.data(), v.e.size())); });
                MustThrow("set_element", n + " to wider elements", [&] { cf.SetArrayElement<true>(d, v.e.size() - 1, int64_t{-1}); });
            }
        }
        if ((f.kind == K::Simple || f.kind == K::Enum))
        {
            MustThrow("set_element", n + " element of a scalar", [&] { cf.SetArrayElement<true>(d, BadIndex(rng, 1), V{}); });
            if (f.size < 8)
            {
                MustThrow("set", n + " to a wider number", [&] { cf.SetFieldValue(d, int64_t{-1}); });
                MustThrow("set_element", n + " to a wider element", [&] { cf.SetArrayElement<true>(d, 0, int64_t{-1}); });
            }
        }
    });
}

//! Anything at all about a field of another message: may be refused or not, but stays within the message.
void Foreign(Rng& rng, CompositeField& cf, const BaseField& d)
{
    MayThrow([&] { (void)cf.GetFieldValueVariant(d); });
    MayThrow([&] { (void)cf.GetFieldValue<double>(d, rng.Below(4)); });
    MayThrow([&] { (void)cf.GetFieldValue<uint8_t>(d, rng.Below(40)); });
    MayThrow([&] {
        size_t n = 0;
        for (auto e : cf.GetFieldValue<Buf<uint64_t>>(d)) { n += e != 0; }
        vt::Count("elements of foreign buffers", n);
    });
    MayThrow([&] { (void)cf.GetFieldValue<std::string>(d); });
    MayThrow([&] { (void)cf.GetFieldValue<std::vector<int32_t>>(d); });
    MayThrow([&] {
        const auto a = cf.GetFieldValue<FieldArray>(d);
        for (size_t k = 0; k < a.size(); ++k) { (void)a[k].GetFieldValue<uint64_t>(d); }
    });
    MayThrow([&] {
        std::byte buf[4096];
        (void)cf.GetFieldByteSize(d);
        (void)cf.GetFieldSize(d);
        (void)cf.WriteFieldToBuffer(d, buf, sizeof buf);
    });
    MayThrow([&] { cf.SetFieldValue(d, double{1}); });
    MayThrow([&] { cf.SetFieldValue(d, std::string("foreign")); });
    MayThrow([&] { cf.SetFieldValue(d, std::vector<uint8_t>(5)); });
    MayThrow([&] { cf.SetFieldValue(d, CompositeFieldArray(1)); });
    MayThrow([&] { cf.SetArrayElement<true>(d, rng.Below(6), uint64_t{1}); });
    MayThrow([&] { cf.SetArrayElement<false>(d, rng.Below(6), uint8_t{1}); });
    MayThrow([&] { (void)cf.GetFieldValueVariant(d); });
}

//! Rows and fields of flat arrays that are out of range or too small for the value.
void FlatWrong(Rng& rng, const FieldArrayField& fd, const FieldM& f)
{
    const FieldInfo& fi = *fd.fieldInfo;
    if (fi.varFieldCount != 0 || fi.fixedFieldBytes == 0) { return; }
    const size_t rows = rng.Below(4);
    FlatFieldArray a(rows, &fi);
    std::vector<Body> recs(rows, Zero(f.sub));
    m::ValOpt vo;
    m::DbM none;
    for (size_t r = 0; r < rows; ++r)
    {
        for (size_t i = 0; i < f.sub.size(); ++i)
        {
            Body b = recs[r];
            for (auto& x : b) { for (auto& e : x.e) { e = rng.Next(); } }
            for (size_t k = 0; k < b.size(); ++k) { for (auto& e : b[k].e) { e = m::MaskTo(e, f.sub[k].size); } }
            SetFlatRow(rng, a, r, fi, f.sub, recs[r], b);
        }
    }
    for (size_t i = 0; i < f.sub.size(); ++i)
    {
        const BaseField& d = *fi.messageOrderedFields[i];
        const size_t row = BadIndex(rng, rows), n = (f.sub[i].kind == K::Fixed ? f.sub[i].arrLen : 1) * f.sub[i].size;
        MustThrow("flat_row", "row " + std::to_string(row) + " of " + std::to_string(rows), [&] { a.SetFieldValue(row, d, uint8_t{1}); });
        MustThrow("flat_row", "row " + std::to_string(row) + " of " + std::to_string(rows) + " by offset", [&] { a.SetFieldValue(row, d.index, uint8_t{1}); });
        MustThrow("flat_field", d.name + " to a long string", [&] { a.SetFieldValue(0, d, std::string(n + 1 + rng.Below(4), 'x')); });
        MustThrow("flat_field", d.name + " to a long vector", [&] { a.SetFieldValue(0, d, std::vector<uint8_t>(n + 1 + rng.Below(9), 0x77)); });
        if (n < 8) { MustThrow("flat_field", d.name + " to a wide number", [&] { a.SetFieldValue(0, d, int64_t{-1}); }); }
        MustThrow("flat_field", "beyond the row", [&] { a.SetFieldValue(0, fi.fixedFieldBytes - rng.Below(8), int64_t{-1}); if (fi.fixedFieldBytes % 8 == 0) { a.SetFieldValue(0, fi.fixedFieldBytes, int64_t{-1}); } });
    }
    const FieldValueVariant v = a;
    ReadRows(FieldArray(v, &fi), fi, f.sub, recs, "flat", "unchanged", f.name);
}

void History(Rng& rng, bool invalid)
{
    World w;
    m::GenOpt o;
    o.lenRef = false;
    o.text = false;
    o.maxDepth = 3;
    w.c = MakeCtx(rng, o, 3);
    w.vo.canonBool = true;
    w.vo.full = rng.Chance(0.1);
    std::vector<Msg> pool;
    std::vector<std::string> log;
    const int steps = static_cast<int>(rng.Range(3, 14));
    bool dropped = false;
    try
    {
        for (int s = 0; s < steps; ++s)
        {
            if (pool.empty() || (!dropped && rng.Chance(0.2)))
            {
                pool.push_back(NewMessage(rng, w));
                log.push_back("new " + Describe(*pool.back().mm, w.c->db));
                ReadAll(pool.back(), "fresh");
                vt::Distinct(vt::HashStr(m::BinaryBody(pool.back().def->f, pool.back().b)) ^ vt::HashStr(log.back()));
                continue;
            }
            Msg& x = rng.Pick(pool);
            if (x.def->f.empty()) { continue; }
            const size_t i = rng.Below(x.def->f.size());
            const FieldM& f = x.def->f[i];
            const BaseField& d = *x.fi->messageOrderedFields[i];
            switch (rng.Below(invalid ? 12 : 7))
            {
            case 0: {
                log.push_back("copy");
                Msg y = x;
                if (rng.Chance(0.5)) { y.cf = x.cf; }
                pool.push_back(std::move(y));
                break;
            }
            case 1: {
                log.push_back("move");
                Msg y = x;
                CompositeField t(std::move(y.cf));
                x.cf = std::move(t);
                break;
            }
            case 2: {
                log.push_back("destroy");
                if (pool.size() > 1) { pool.erase(pool.begin() + static_cast<long>(rng.Below(pool.size()))); }
                break;
            }
            case 3: {
                log.push_back("copy the value of " + f.name + " between messages");
                for (auto& y : pool)
                {
                    if (&y != &x && y.def == x.def)
                    {
                        if (f.kind == K::Arr)
                        {
                            const FieldValueVariant v = y.cf.GetFieldValueVariant(d);
                            if (const auto* a = std::get_if<CompositeFieldArray>(&v)) { x.cf.SetFieldValue(d, *a); }
                            else { x.cf.SetFieldValue(d, std::get<FlatFieldArray>(v)); }
                            x.b[i] = y.b[i];
                        }
                        else { SetField(rng, x.cf, d, f, x.b[i], y.b[i]); }
                        break;
                    }
                }
                break;
            }
            case 4: {
                if (!f.IsVar() && f.kind != K::Fixed) { break; }
                if (f.kind == K::Var && x.b[i].e.empty()) { break; }
                if (f.kind == K::Fixed || f.kind == K::Var)
                {
                    const size_t k = rng.Below(x.b[i].e.size());
                    log.push_back("set " + f.name + "[" + std::to_string(k) + "]");
                    const uint64_t e = m::GenElem(rng, f, w.vo);
                    WithStored(f, [&](auto tag) {
                        using V = decltype(tag);
                        if constexpr (!std::is_same_v<V, bool>)
                        {
                            if (f.kind == K::Fixed) { x.cf.SetArrayElement<true>(d, k, Of<V>(e)); }
                            else { x.cf.SetArrayElement<false>(d, k, Of<V>(e)); }
                        }
                    });
                    x.b[i].e[k] = e;
                }
                break;
            }
            case 5: case 6: {
                log.push_back("set " + f.name);
                const Body b = m::GenBody(rng, x.def->f, w.c->db, w.vo);
                SetField(rng, x.cf, d, f, x.b[i], b[i]);
                break;
            }
            case 7:
                log.push_back("get " + f.name + " wrongly");
                WrongGet(rng, x.cf, d, f, "");
                break;
            case 8:
                log.push_back("get " + f.name + " out of range");
                OutOfRange(rng, x.cf, d, f, x.b[i], "");
                MustThrow("name", "an unknown name", [&] { (void)x.cf.GetFieldValueByName<uint32_t>("?" + f.name); });
                MustThrow("name", "an empty name", [&] { (void)x.cf.GetFieldValueByName<std::string>(""); });
                if (f.kind == K::Arr) { FlatWrong(rng, dynamic_cast<const FieldArrayField&>(d), f); }
                break;
            case 9: case 10:
                log.push_back("set " + f.name + " wrongly");
                WrongSet(rng, x.cf, d, f, x.b[i]);
                break;
            default: {
                log.push_back("access fields of another message");
                CompositeField copy = x.cf;
                for (auto& mm : w.c->db.msgs)
                {
                    for (auto& def : mm.defs)
                    {
                        if (&def == x.def || dropped) { continue; }
                        const auto fi = InfoOf(w, mm, def);
                        for (auto& fd : fi->messageOrderedFields) { Foreign(rng, copy, *fd); }
                    }
                }
                // messages without storage
                CompositeField none;
                MustThrow("unsized", "get " + f.name + " of a message without fields", [&] { (void)none.GetFieldValueVariant(d); });
                MustThrow("unsized", "iterate over a message without definition", [&] { (void)none.begin(); });
                MustThrow("unsized", "get by name of a message without definition", [&] { (void)none.GetFieldValueByName<uint8_t>(f.name); });
                Foreign(rng, none, d);
                CompositeField part(rng.Below(x.fi->fixedFieldBytes + 1), rng.Below(x.fi->varFieldCount + 1));
                for (auto& fd : x.fi->messageOrderedFields) { Foreign(rng, part, *fd); }
                break;
            }
            }
            if (!dropped && rng.Chance(0.04))
            {
                log.push_back("release the database");
                w.c->p.reset();
                dropped = true;
                vt::Count("databases released before their messages");
            }
            if (!dropped && rng.Chance(0.05))
            {
                log.push_back("edit the database");
                for (auto& e : w.c->db.enums) { if (rng.Chance(0.5)) { w.c->p->RemoveEnumeration(e.name); } }
                for (auto& mm : w.c->db.msgs) { if (rng.Chance(0.5)) { w.c->p->RemoveMessage(mm.id); } }
                if (rng.Chance(0.5)) { w.c->p->Merge(*MakeCtx(rng, o, 2)->p); }
                dropped = true; // definitions are no longer taken from it
                vt::Count("databases edited under their messages");
            }
            for (auto& y : pool) { ReadAll(y, invalid ? "after_invalid" : "after"); }
            vt::Count("steps");
        }
    }
    catch (const vt::Violation& v)
    {
        throw vt::Violation(v.key, v.what() + std::string(" after: ") + Sequence(log));
    }
    // what was set is what is encoded
    if (!dropped)
    {
        for (auto& y : pool)
        {
            bool ok = !y.def->f.empty();
            if (!ok) { continue; }
            oem::Encoder enc(w.c->p);
            Hdr h = GenHdr(rng, w.c->db, static_cast<uint16_t>(y.mm->id), y.def->crc);
            const std::string want = m::BinaryBody(y.def->f, y.b);
            Enc r = Encode(enc, ToInter(h), y.cf, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY, want.size() + 200);
            VT_CHECK(r.st == STATUS::SUCCESS, "encode", "encoding a message that was set returned " << static_cast<int>(r.st) << " after: " << Sequence(log));
            VT_CHECK(r.body.size() == want.size() + 4 && r.body.compare(0, want.size(), want) == 0, "encoded", "encoded " << vt::Hex(r.body) << " instead of " << vt::Hex(want) << " after: " << Sequence(log));
            vt::Count("messages encoded");
        }
    }
    if (pool.size() < 20 && rng.Chance(0.002)) { vt::Sample(Sequence(log)); }
}

} // namespace

VT_SUITE(valid) { History(rng, false); }
VT_SUITE(invalid) { History(rng, true); }
VT_MAIN()
