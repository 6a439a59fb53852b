// C12: what one format encodes, decoding gives back; encoding it again gives the same bytes.
#include "codec.hpp"
VT_MAIN()
using namespace cx;

struct Fmts { ENCODE_FORMAT e; bool brief; HEADER_FORMAT hdr; const char* n; };
static const Fmts kFmts[] = {{ENCODE_FORMAT::BINARY, false, HEADER_FORMAT::BINARY, "bin"},
                             {ENCODE_FORMAT::BINARY, true, HEADER_FORMAT::SHORT_BINARY, "bin_short"},
                             {ENCODE_FORMAT::ASCII, false, HEADER_FORMAT::ASCII, "ascii"},
                             {ENCODE_FORMAT::ASCII, true, HEADER_FORMAT::SHORT_ASCII, "ascii_short"},
                             {ENCODE_FORMAT::ABBREV_ASCII, false, HEADER_FORMAT::ABB_ASCII, "abb"},
                             {ENCODE_FORMAT::ABBREV_ASCII, true, HEADER_FORMAT::SHORT_ABB_ASCII, "abb_short"},
                             {ENCODE_FORMAT::JSON, false, HEADER_FORMAT::JSON, "json"},
                             {ENCODE_FORMAT::JSON, true, HEADER_FORMAT::SHORT_BINARY, "json_short"}};

//! Equal as far as the field's text tells.
static bool TextEq(const Ctx& c, const FieldM& f, uint64_t w, uint64_t g)
{
    if (f.kind == K::Enum) { return m::EnumText(c.db, f, w) == m::EnumText(c.db, f, g); }
    if (f.t != T::FLOAT && f.t != T::DOUBLE && f.alpha != "m") { return ExactEq(f, w, g); }
    for (auto& a : m::ElemTexts(f, w, c.nm)) { for (auto& b : m::ElemTexts(f, g, c.nm)) { if (a == b) { return true; } } }
    return false;
}
//! JSON strings end at the first NUL: what follows it in a %s array is not content.
//! Returns whether the count in a length-reference field disagrees afterwards.
static bool TrimStrings(const std::vector<FieldM>& fs, Body& b)
{
    bool ref = false;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        if (fs[i].kind == K::Var && fs[i].IsString())
        {
            size_t n = 0;
            while (n < b[i].e.size() && b[i].e[n]) { ++n; }
            ref |= n != b[i].e.size() && !fs[i].lenRef.empty();
            b[i].e.resize(n);
        }
        for (auto& r : b[i].recs) { ref |= TrimStrings(fs[i].sub, r); }
    }
    return ref;
}
static std::string HeaderDiff(const Hdr& h, const oem::IntermediateHeader& g, const Fmts& f)
{
    std::string e;
    auto eq = [&](const char* n, uint64_t want, uint64_t got) { if (want != got) { e += std::string(" ") + n + " " + std::to_string(got) + " want " + std::to_string(want); } };
    bool bin = f.e == ENCODE_FORMAT::BINARY;
    eq("id", h.id, g.usMessageId);
    if (!(bin && f.brief)) { eq("sibling", h.sib, g.ucMessageType & 31); }
    if (!(bin && f.brief)) { eq("response", h.resp, g.ucMessageType >> 7); }
    eq("week", h.week, g.usWeek);
    eq("ms", h.ms, static_cast<uint64_t>(g.dMilliseconds));
    if (f.brief) { return e; }
    eq("port", bin ? h.port & 0xFF : h.port, g.uiPortAddress);
    eq("sequence", h.seq, g.usSequence);
    eq("idle", h.idle, g.ucIdleTime);
    eq("time status", h.ts, g.uiTimeStatus);
    eq("receiver status", h.rx, g.uiReceiverStatus);
    eq("definition crc", bin ? h.defcrc & 0xFFFF : h.defcrc, g.uiMessageDefinitionCrc);
    eq("version", h.sw, g.usReceiverSwVersion);
    return e;
}
//! %k and %g choose between fixed and scientific notation: a value whose shown digits round onto the limit may be shown
//! the other way next time. Same text otherwise, up to the CRC.
static bool HasSwitching(const std::vector<FieldM>& fs)
{
    for (auto& f : fs) { if (f.alpha == "k" || f.alpha == "g" || f.alpha == "lk" || f.alpha == "lg" || HasSwitching(f.sub)) { return true; } }
    return false;
}
static bool SameNumbers(std::string a, std::string b)
{
    for (auto* s : {&a, &b}) { auto p = s->rfind('*'); if (p != std::string::npos && s->size() - p == 11) { s->resize(p); } }
    auto tok = [](const std::string& s) { std::vector<std::string> r(1); for (char ch : s) { if (strchr(", \r\n[]{}:", ch)) { r.emplace_back(1, ch); r.emplace_back(); } else { r.back() += ch; } } return r; };
    auto x = tok(a), y = tok(b);
    if (x.size() != y.size()) { return false; }
    for (size_t i = 0; i < x.size(); ++i)
    {
        if (x[i] == y[i]) { continue; }
        char *e = nullptr, *g = nullptr;
        double u = strtod(x[i].c_str(), &e), v = strtod(y[i].c_str(), &g);
        if (*e || *g || u != v || (x[i].find('e') == std::string::npos) == (y[i].find('e') == std::string::npos)) { return false; }
        vt::Count("notation_switched");
    }
    return true;
}
VT_SUITE(formats)
{
    m::GenOpt o;
    o.lenRef = rng.Chance(0.2);
    auto c = MakeCtx(rng, o, 2);
    oem::MessageDecoder dec(c->p);
    oem::HeaderDecoder hd(c->p);
    oem::Encoder enc(c->p);
    m::ValOpt vo;
    vo.text = true;
    vo.knownEnum = true;
    vo.canonBool = true;
    vo.msgIds = MsgIdValues(c->db);
    CompositeField reused;
    for (auto& mm : c->db.msgs)
    {
        for (auto& def : mm.defs)
        {
            auto defp = c->p->GetMsgDef(static_cast<int32_t>(mm.id));
            const auto& fi = *defp->fieldInfo.at(def.crc);
            for (int k = 0; k < 3; ++k)
            {
                vo.full = k == 0;
                vo.special = k == 2;
                Body b = m::GenBody(rng, def.f, c->db, vo);
                std::string bin = m::BinaryBody(def.f, b);
                Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), def.crc);
                CompositeField src;
                oem::MetaDataStruct md0;
                FillMeta(md0, h, mm.name, HEADER_FORMAT::BINARY, bin.size());
                VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), src, md0) == STATUS::SUCCESS, "decode", "decode of a well-formed body failed");
                for (auto& f : kFmts)
                {
                    // the definition must be identified by what the format carries
                    bool carries = !f.brief && (f.e != ENCODE_FORMAT::BINARY || def.crc <= 0xFFFF);
                    if (!carries && def.crc != mm.latest) { continue; }
                    if (f.e == ENCODE_FORMAT::JSON && vo.special) { continue; } // JSON has no non-finite numbers
                    if (f.e == ENCODE_FORMAT::BINARY && f.brief && bin.size() > 255) { continue; }
                    Enc e = Encode(enc, ToInter(h), src, f.hdr, f.e, 60000);
                    auto ctx = [&] { return std::string(" format ") + f.n + " id " + std::to_string(mm.id) + " message " + vt::Esc(e.msg, 3000) + " body " + vt::Hex(bin) + " def " + Describe(mm, c->db); };
                    VT_CHECK(e.st == STATUS::SUCCESS, "encode", "encoding returned " << static_cast<int>(e.st) << ctx());
                    // exactly the message, as a framer delivers it (JSON is a NUL-terminated document)
                    size_t n = e.msg.size() + (f.e == ENCODE_FORMAT::JSON ? 1 : 0);
                    std::unique_ptr<unsigned char[]> buf(new unsigned char[n]);
                    memcpy(buf.get(), e.msg.c_str(), n);
                    oem::IntermediateHeader ih;
                    oem::MetaDataStruct md;
                    STATUS st = hd.Decode(buf.get(), ih, md);
                    VT_CHECK(st == STATUS::SUCCESS, "header-status", "header decode returned " << static_cast<int>(st) << ctx());
                    std::string d = HeaderDiff(h, ih, f);
                    VT_CHECK(d.empty(), "header", d << ctx());
                    md.uiLength = static_cast<uint32_t>(e.msg.size());
                    CompositeField fresh;
                    CompositeField& got = rng.Chance(0.5) ? fresh : reused;
                    st = dec.Decode(buf.get() + (f.e == ENCODE_FORMAT::JSON ? 0 : md.uiHeaderLength), got, md);
                    VT_CHECK(st == STATUS::SUCCESS, "status", "decode returned " << static_cast<int>(st) << ctx());
                    memset(buf.get(), 0x5A, n);
                    Body want = b;
                    bool skip = f.e == ENCODE_FORMAT::JSON && TrimStrings(def.f, want);
                    bool bits = f.e == ENCODE_FORMAT::BINARY;
                    d = Compare(got, fi, def.f, want, [&](const FieldM& fm, uint64_t w, uint64_t g) { return bits ? ExactEq(fm, w, g) : TextEq(*c, fm, w, g); });
                    VT_CHECK(d.empty(), "value", d << ctx());
                    Enc e2 = Encode(enc, ih, got, f.hdr, f.e, 60000);
                    VT_CHECK(e2.st == STATUS::SUCCESS, "again-status", "encoding again returned " << static_cast<int>(e2.st) << ctx());
                    VT_CHECK(e2.msg == e.msg || (HasSwitching(def.f) && SameNumbers(e2.msg, e.msg)), "again", "encoded again as " << vt::Esc(e2.msg, 3000) << ctx());
                    vt::Eval();
                    vt::Distinct(vt::HashStr(e.msg));
                    vt::Count(f.n);
                    // and to another format: what the binary body of the decoded values is
                    if (!bits && !skip)
                    {
                        Enc e3 = Encode(enc, ToInter(h), got, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY, 60000);
                        VT_CHECK(e3.st == STATUS::SUCCESS, "binary-status", "encoding the decoded message to binary returned " << static_cast<int>(e3.st) << ctx());
                        oem::MetaDataStruct md3;
                        FillMeta(md3, h, mm.name, HEADER_FORMAT::BINARY, e3.body.size() - 4);
                        CompositeField back;
                        st = dec.Decode(reinterpret_cast<const unsigned char*>(e3.body.data()), back, md3);
                        VT_CHECK(st == STATUS::SUCCESS, "binary-decode", "decoding it from binary returned " << static_cast<int>(st) << ctx());
                        d = Compare(back, fi, def.f, want, [&](const FieldM& fm, uint64_t w, uint64_t g) { return TextEq(*c, fm, w, g); });
                        VT_CHECK(d.empty(), "binary-value", "through binary: " << d << ctx());
                        vt::Count("to_binary");
                    }
                    if (k == 0) { vt::Sample(vt::Esc(e.msg, 300)); }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- flattened binary
//! Makes every field naturally aligned at its packed, maximally sized position by inserting filler arrays, so that the packed
//! struct of scripts/gen_flat_cpp_structs.py and the family's alignment agree about where each field is. Counts are 4 bytes.
static size_t Naturalise(std::vector<FieldM>& fs, int& n)
{
    std::vector<FieldM> out;
    size_t at = 0;
    auto fill = [&](size_t a) {
        a = std::min<size_t>(a, 4);
        size_t k = (a - at % a) % a;
        if (!k) { return; }
        FieldM p;
        p.name = "fill" + std::to_string(n++);
        p.kind = K::Fixed;
        p.t = T::UCHAR;
        p.size = 1;
        p.alpha = "u";
        p.arrLen = static_cast<uint32_t>(k);
        out.push_back(p);
        at += k;
    };
    for (auto& f : fs)
    {
        size_t total = 0;
        switch (f.kind)
        {
        case K::Simple: case K::Enum: fill(f.size); total = f.size; break;
        case K::Fixed: fill(f.size); total = f.size * f.arrLen; break;
        case K::Str: total = f.arrLen; break;
        case K::Var: f.lenSize = 4; fill(4); total = 4 + f.size * f.arrLen; break;
        case K::Arr: f.lenSize = 4; f.size = 4; fill(4); total = 4 + f.arrLen * Naturalise(f.sub, n); break;
        }
        out.push_back(f);
        at += total;
    }
    fill(4); // records follow each other
    fs = std::move(out);
    return at;
}
static void PutFlat(std::string& o, const std::vector<FieldM>& fs, const Body& b);
static size_t FlatSize(const std::vector<FieldM>& fs)
{
    size_t n = 0;
    for (auto& f : fs)
    {
        switch (f.kind)
        {
        case K::Simple: case K::Enum: n += f.size; break;
        case K::Fixed: n += f.size * f.arrLen; break;
        case K::Str: n += f.arrLen; break;
        case K::Var: n += 4 + f.size * f.arrLen; break;
        case K::Arr: n += 4 + f.arrLen * FlatSize(f.sub); break;
        }
    }
    return n;
}
static void PutFlat(std::string& o, const std::vector<FieldM>& fs, const Body& b)
{
    for (size_t i = 0; i < fs.size(); ++i)
    {
        auto& f = fs[i];
        if (f.kind == K::Var) { m::PutLE(o, b[i].e.size(), 4); }
        if (f.kind == K::Arr) { m::PutLE(o, b[i].recs.size(), 4); }
        size_t at = o.size();
        for (auto x : b[i].e) { m::PutLE(o, x, f.size); }
        o += b[i].s;
        for (auto& r : b[i].recs) { PutFlat(o, f.sub, r); }
        size_t full = f.kind == K::Arr ? f.arrLen * FlatSize(f.sub) : f.kind == K::Str ? f.arrLen : f.kind == K::Var || f.kind == K::Fixed ? f.size * f.arrLen : f.size;
        o.resize(at + full, '\0');
    }
}
VT_SUITE(flat)
{
    m::GenOpt o;
    m::DbM db = m::GenDb(rng, o, 2);
    int n = 0;
    for (auto& mm : db.msgs) { for (auto& d : mm.defs) { Naturalise(d.f, n); } }
    auto c = MakeCtx(std::move(db));
    oem::MessageDecoder dec(c->p);
    oem::Encoder enc(c->p);
    m::ValOpt vo;
    vo.canonBool = true;
    vo.msgIds = MsgIdValues(c->db);
    for (auto& mm : c->db.msgs)
    {
        for (auto& def : mm.defs)
        {
            for (int k = 0; k < 3; ++k)
            {
                vo.full = k == 0;
                Body b = m::GenBody(rng, def.f, c->db, vo);
                std::string bin = m::BinaryBody(def.f, b), flat;
                PutFlat(flat, def.f, b);
                Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), def.crc);
                CompositeField src;
                oem::MetaDataStruct md0;
                FillMeta(md0, h, mm.name, HEADER_FORMAT::BINARY, bin.size());
                VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), src, md0) == STATUS::SUCCESS, "decode", "decode of a well-formed body failed");
                for (bool brief : {false, true})
                {
                    auto ctx = [&] { return std::string(" brief ") + (brief ? "1" : "0") + " id " + std::to_string(mm.id) + " body " + vt::Hex(bin) + " def " + Describe(mm, c->db); };
                    Enc e = Encode(enc, ToInter(h), src, brief ? HEADER_FORMAT::SHORT_BINARY : HEADER_FORMAT::BINARY, ENCODE_FORMAT::FLATTENED_BINARY, flat.size() + 200);
                    if (brief && flat.size() > 255)
                    {
                        VT_CHECK(e.st != STATUS::SUCCESS, "short-overflow", "a body of " << flat.size() << " bytes was encoded with a one-byte length" << ctx());
                        continue;
                    }
                    if (flat.size() > 65535) { continue; }
                    VT_CHECK(e.st == STATUS::SUCCESS, "status", "encoding returned " << static_cast<int>(e.st) << ctx());
                    VT_CHECK(e.err.empty(), "range", e.err << ctx());
                    std::string got = e.body.substr(0, e.body.size() < 4 ? 0 : e.body.size() - 4);
                    size_t at = 0;
                    while (at < got.size() && at < flat.size() && got[at] == flat[at]) { ++at; }
                    VT_CHECK(got == flat, "body", "from byte " << at << ": " << vt::Hex(got) << " want " << vt::Hex(flat) << ctx());
                    VT_CHECK(e.header == BinHdr(h, brief, flat.size()) && e.msg == raw::BinWrap(e.header + flat), "message", vt::Hex(e.header) << ctx());
                    vt::Eval();
                    vt::Distinct(vt::HashStr(e.msg));
                    vt::Count(m::HasVar(def.f) ? "flat.variable" : "flat.fixed");
                    if (k == 0) { vt::Sample(vt::Hex(e.msg, 200)); }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- responses
static std::string AsciiMsg(const std::string& hdr, const std::string& body) { return hdr + body + "*" + raw::Hex8(raw::Crc32((hdr + body).substr(1))) + "\r\n"; }
VT_SUITE(responses)
{
    m::GenOpt o;
    auto c = MakeCtx(rng, o, 2);
    oem::HeaderDecoder hd(c->p);
    oem::MessageDecoder dec(c->p);
    oem::Encoder enc(c->p);
    const auto* re = c->db.Enum("Responses");
    CompositeField reused;
    for (int k = 0; k < 12; ++k)
    {
        const auto& mm = c->db.msgs[rng.Below(c->db.msgs.size())];
        Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), static_cast<uint32_t>(rng.Chance(0.5) ? mm.defs[0].crc & 0xFFFF : rng.Below(65536)));
        h.resp = true;
        // the text and the number it stands for
        int32_t id = 0;
        std::string text;
        switch (rng.Below(5))
        {
        case 0: text = "OK"; id = 1; break;
        case 1: case 2: { size_t i = 2 + rng.Below(re->v.size() - 2); id = static_cast<int32_t>(re->v[i].first); text = "ERROR:" + re->desc[i]; break; }
        case 3: text = rng.PickOf({"ERROR:Message missing field 'x'", "ERROR:Parameter 3 is out of range", "ERROR:", "E", "ERR"}); break;
        default: for (int i = static_cast<int>(rng.Range(1, 20)); i; --i) { text += m::SafeChar(rng); } text = "ERROR:~" + text; break;
        }
        int32_t binId = rng.Chance(0.5) ? id : static_cast<int32_t>(rng.Below(7));
        std::string bin = raw::LE(static_cast<uint32_t>(binId), 4) + text;
        for (HEADER_FORMAT hf : {HEADER_FORMAT::BINARY, HEADER_FORMAT::ASCII, HEADER_FORMAT::SHORT_ASCII, HEADER_FORMAT::ABB_ASCII})
        {
            bool isBin = hf == HEADER_FORMAT::BINARY, abb = hf == HEADER_FORMAT::ABB_ASCII, brief = hf == HEADER_FORMAT::SHORT_ASCII;
            if (abb && text.compare(0, 2, "OK") != 0 && text.compare(0, 5, "ERROR") != 0) { continue; } // not a response line
            std::string msg;
            if (isBin) { msg = raw::BinWrap(BinHdr(h, false, bin.size()) + bin); }
            else if (abb) { msg = "<" + text + "\r\n"; }
            else { msg = AsciiMsg(AsciiHdr(c->db, h, brief), text); }
            auto ctx = [&] { return " message " + vt::Esc(msg); };
            std::unique_ptr<unsigned char[]> buf(new unsigned char[msg.size()]);
            memcpy(buf.get(), msg.data(), msg.size());
            oem::IntermediateHeader ih;
            oem::MetaDataStruct md;
            STATUS st = hd.Decode(buf.get(), ih, md);
            VT_CHECK(st == STATUS::SUCCESS && md.bResponse, "header", "header decode returned " << static_cast<int>(st) << " response " << md.bResponse << ctx());
            md.uiLength = static_cast<uint32_t>(msg.size());
            CompositeField& got = reused;
            st = dec.Decode(buf.get() + md.uiHeaderLength, got, md);
            VT_CHECK(st == STATUS::SUCCESS, "status", "decode returned " << static_cast<int>(st) << ctx());
            memset(buf.get(), 0x5A, msg.size());
            VT_CHECK(got.GetFieldInfo() && got.GetFieldInfo()->messageOrderedFields.size() == 2, "fields", "a response has a number and a text" << ctx());
            int32_t gid = got.GetFieldValueByName<int32_t>("response_id");
            std::string gtext = got.GetFieldValueByName<std::string>("response_str");
            VT_CHECK(gid == (isBin ? binId : id), "id", "response " << gid << " want " << (isBin ? binId : id) << ctx());
            VT_CHECK(gtext == text, "text", "text " << vt::Esc(gtext) << ctx());
            Enc e = Encode(enc, ih, got, hf, isBin ? ENCODE_FORMAT::BINARY : abb ? ENCODE_FORMAT::ABBREV_ASCII : ENCODE_FORMAT::ASCII, 1000);
            VT_CHECK(e.st == STATUS::SUCCESS, "again-status", "encoding again returned " << static_cast<int>(e.st) << ctx());
            VT_CHECK(e.err.empty(), "range", e.err << ctx());
            VT_CHECK(e.msg == msg && e.msg == e.header + e.body, "again", "encoded again as " << vt::Esc(e.msg) << ctx());
            // to the other formats: the same text
            Enc a = Encode(enc, ToInter(h), got, HEADER_FORMAT::ASCII, ENCODE_FORMAT::ASCII, 1000);
            VT_CHECK(a.st == STATUS::SUCCESS && a.msg == AsciiMsg(AsciiHdr(c->db, h, false), text), "to-ascii", vt::Esc(a.msg) << ctx());
            Enc b = Encode(enc, ToInter(h), got, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY, 1000);
            std::string wb = raw::LE(static_cast<uint32_t>(gid), 4) + text;
            VT_CHECK(b.st == STATUS::SUCCESS && b.msg == raw::BinWrap(BinHdr(h, false, wb.size()) + wb), "to-binary", vt::Hex(b.msg) << ctx());
            Enc x = Encode(enc, ToInter(h), got, HEADER_FORMAT::ABB_ASCII, ENCODE_FORMAT::ABBREV_ASCII, 1000);
            VT_CHECK(x.st == STATUS::SUCCESS && x.err.empty() && x.msg == "<" + text + "\r\n" && x.msg == x.header + x.body, "to-abb", vt::Esc(x.msg) << ctx());
            vt::Eval();
            vt::Distinct(vt::HashStr(msg));
            vt::Count(isBin ? "resp.bin" : abb ? "resp.abb" : brief ? "resp.ascii_short" : "resp.ascii");
            if (!k) { vt::Sample(vt::Esc(msg)); }
        }
    }
}
