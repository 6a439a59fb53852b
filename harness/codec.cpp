// C11-C13: message bodies through the decoder and encoder, against the reference layout and renderings of model.hpp.
#include "codec.hpp"
VT_MAIN()
using namespace cx;
using raw::F;

static const int kBodies = 5;

// C11: binary bodies decode to the values at the positions the definition prescribes, and encode back to the same bytes.
static void BinCase(Rng& rng, bool lenRef, const char* tag)
{
    m::GenOpt o;
    o.lenRef = lenRef;
    auto c = MakeCtx(rng, o, 2);
    oem::MessageDecoder dec(c->p);
    oem::Encoder enc(c->p);
    m::ValOpt vo;
    vo.canonBool = true;
    vo.msgIds = MsgIdValues(c->db);
    for (auto& mm : c->db.msgs)
    {
        for (auto& def : mm.defs)
        {
            for (int k = 0; k < kBodies; ++k)
            {
                vo.full = k == 0;
                Body b = m::GenBody(rng, def.f, c->db, vo);
                std::string bin = m::BinaryBody(def.f, b);
                Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), def.crc);
                std::unique_ptr<unsigned char[]> buf(new unsigned char[bin.size()]); // heap-exact
                memcpy(buf.get(), bin.data(), bin.size());
                Dec d;
                FillMeta(d.md, h, mm.name, HEADER_FORMAT::BINARY, bin.size());
                d.st = dec.Decode(buf.get(), d.body, d.md);
                auto ctx = [&] { return std::string(" id ") + std::to_string(mm.id) + " body " + vt::Hex(bin) + " def " + Describe(mm, c->db); };
                VT_CHECK(d.st == STATUS::SUCCESS, "status", "decode of a well-formed body returned " << static_cast<int>(d.st) << ctx());
                memset(buf.get(), 0x5A, bin.size()); // the values must not refer to the caller's bytes
                auto defp = c->p->GetMsgDef(static_cast<int32_t>(mm.id));
                const auto& fi = *defp->fieldInfo.at(def.crc);
                std::string e = Compare(d.body, fi, def.f, b, ExactEq);
                VT_CHECK(e.empty(), "value", e << ctx());
                vt::Eval();
                vt::Distinct(vt::HashStr(bin) ^ vt::HashStr(Describe(mm, c->db)));
                vt::Count(std::string(tag) + (m::HasVar(def.f) ? ".variable" : ".fixed"));
                Enc x = Encode(enc, ToInter(h), d.body, HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY, bin.size() + 256);
                VT_CHECK(x.st == STATUS::SUCCESS, "encode-status", "encoding back returned " << static_cast<int>(x.st) << ctx());
                VT_CHECK(x.err.empty(), "encode-range", x.err << ctx());
                VT_CHECK(x.body.size() == bin.size() + 4 && x.body.compare(0, bin.size(), bin) == 0, "encode-body", "encoded " << vt::Hex(x.body) << ctx());
                if (k == 0) { vt::Sample(mm.name + " " + vt::Hex(bin, 120)); }
            }
        }
    }
}
VT_SUITE(bin_values) { BinCase(rng, false, "bin"); }
VT_SUITE(bin_lenref) { BinCase(rng, true, "ref"); }

// C13: everything reported as encoded is a complete message, its parts as an independent rendering gives them.
#include <novatel_edie/decoders/oem/framer.hpp>
struct Fmts { ENCODE_FORMAT e; bool brief; HEADER_FORMAT hdr; const char* n; };
static const Fmts kFmts[] = {{ENCODE_FORMAT::BINARY, false, HEADER_FORMAT::BINARY, "bin"},
                             {ENCODE_FORMAT::BINARY, true, HEADER_FORMAT::SHORT_BINARY, "bin_short"},
                             {ENCODE_FORMAT::ASCII, false, HEADER_FORMAT::ASCII, "ascii"},
                             {ENCODE_FORMAT::ASCII, true, HEADER_FORMAT::SHORT_ASCII, "ascii_short"},
                             {ENCODE_FORMAT::ABBREV_ASCII, false, HEADER_FORMAT::ABB_ASCII, "abb"},
                             {ENCODE_FORMAT::ABBREV_ASCII, true, HEADER_FORMAT::SHORT_ABB_ASCII, "abb_short"},
                             {ENCODE_FORMAT::JSON, false, HEADER_FORMAT::JSON, "json"},
                             {ENCODE_FORMAT::JSON, true, HEADER_FORMAT::SHORT_BINARY, "json_short"}};

//! The message a decoder makes of a generated body (checked elsewhere), ready to be encoded.
struct Made { Dec d; Hdr h; std::string bin; };
static std::unique_ptr<Made> Make(Rng& rng, const Ctx& c, oem::MessageDecoder& dec, const m::MsgM& mm, const m::DefM& def, const Body& b)
{
    auto r = std::make_unique<Made>();
    r->bin = m::BinaryBody(def.f, b);
    r->h = GenHdr(rng, c.db, static_cast<uint16_t>(mm.id), def.crc);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[r->bin.size()]);
    memcpy(buf.get(), r->bin.data(), r->bin.size());
    FillMeta(r->d.md, r->h, mm.name, HEADER_FORMAT::BINARY, r->bin.size());
    r->d.st = dec.Decode(buf.get(), r->d.body, r->d.md);
    VT_CHECK(r->d.st == STATUS::SUCCESS, "decode", "decode of a well-formed body returned " << static_cast<int>(r->d.st));
    return r;
}
static void FrameCheck(const std::string& msg, HEADER_FORMAT want, const std::string& ctx)
{
    oem::Framer fr;
    std::string feed = msg + (want == HEADER_FORMAT::ABB_ASCII || want == HEADER_FORMAT::SHORT_ABB_ASCII ? "\x01\x02" : "");
    fr.Write(reinterpret_cast<const unsigned char*>(feed.data()), feed.size());
    std::vector<unsigned char> out(40000);
    oem::MetaDataStruct md;
    STATUS st = fr.GetFrame(out.data(), static_cast<uint32_t>(out.size()), md);
    VT_CHECK(st == STATUS::SUCCESS && md.uiLength == msg.size() && memcmp(out.data(), msg.data(), msg.size()) == 0 &&
                 (md.eFormat == want || (want == HEADER_FORMAT::SHORT_ABB_ASCII && md.eFormat == HEADER_FORMAT::ABB_ASCII)),
             "frame", "framer says status " << static_cast<int>(st) << " format " << static_cast<int>(md.eFormat) << " length " << md.uiLength << " for " << vt::Esc(msg) << ctx);
    vt::Count("framed");
}
static void TextCase(Rng& rng, bool printable)
{
    m::GenOpt o;
    o.lenRef = rng.Chance(0.2);
    o.empty = true;
    auto c = MakeCtx(rng, o, 2);
    oem::MessageDecoder dec(c->p);
    oem::Encoder enc(c->p);
    m::ValOpt vo;
    vo.text = printable;
    vo.ascii = true;
    vo.special = rng.Chance(0.2);
    vo.msgIds = MsgIdValues(c->db);
    for (auto& mm : c->db.msgs)
    {
        for (auto& def : mm.defs)
        {
            for (int k = 0; k < 3; ++k)
            {
                vo.full = k == 0;
                Body b = m::GenBody(rng, def.f, c->db, vo);
                auto x = Make(rng, *c, dec, mm, def, b);
                for (auto& f : kFmts)
                {
                    auto ctx = [&] { return std::string(" format ") + f.n + " id " + std::to_string(mm.id) + " body " + vt::Hex(x->bin) + " def " + Describe(mm, c->db); };
                    Hdr h = x->h;
                    h.resp = f.brief && f.e != ENCODE_FORMAT::ASCII ? false : h.resp;
                    Enc e = Encode(enc, ToInter(h), x->d.body, f.hdr, f.e, 60000);
                    if (f.e == ENCODE_FORMAT::BINARY && f.brief && x->bin.size() > 255)
                    {
                        VT_CHECK(e.st != STATUS::SUCCESS, "short-overflow", "a body of " << x->bin.size() << " bytes was encoded with a one-byte length" << ctx());
                        continue;
                    }
                    VT_CHECK(e.st == STATUS::SUCCESS, "status", "encoding returned " << static_cast<int>(e.st) << ctx());
                    VT_CHECK(e.err.empty(), "range", e.err << ctx());
                    vt::Eval();
                    vt::Distinct(vt::HashStr(e.msg));
                    vt::Count(f.n);
                    switch (f.e)
                    {
                    case ENCODE_FORMAT::BINARY: {
                        std::string w = BinHdr(h, f.brief, x->bin.size());
                        VT_CHECK(e.header == w, "bin-header", vt::Hex(e.header) << " want " << vt::Hex(w) << ctx());
                        VT_CHECK(e.msg == raw::BinWrap(e.header + e.body.substr(0, x->bin.size())) && e.msg == e.header + e.body, "bin-message", vt::Hex(e.msg) << ctx());
                        FrameCheck(e.msg, f.hdr, ctx());
                        break;
                    }
                    case ENCODE_FORMAT::ASCII: {
                        std::string w = AsciiHdr(c->db, h, f.brief);
                        VT_CHECK(e.header == w, "ascii-header", e.header << " want " << w << ctx());
                        m::Pieces p = m::AsciiBody(c->db, def.f, b, c->nm, false);
                        std::string crc = "*" + raw::Hex8(raw::Crc32((e.header + e.body.substr(0, e.body.size() < 11 ? 0 : e.body.size() - 11)).substr(1))) + "\r\n";
                        VT_CHECK(e.body.size() >= 11 && e.body.substr(e.body.size() - 11) == crc, "ascii-crc", vt::Esc(e.msg) << " want " << crc << ctx());
                        size_t at = p.Match(e.body.substr(0, e.body.size() - 11));
                        VT_CHECK(at == std::string::npos, "ascii-body", "from byte " << at << ": " << vt::Esc(e.body, 4000) << " want " << vt::Esc(p.Str(), 4000) << ctx());
                        VT_CHECK(e.msg == e.header + e.body, "ascii-message", vt::Esc(e.msg) << ctx());
                        if (printable) { FrameCheck(e.msg, f.hdr, ctx()); }
                        break;
                    }
                    case ENCODE_FORMAT::ABBREV_ASCII: {
                        std::string w = AbbHdr(c->db, h, f.brief);
                        VT_CHECK(e.header == w, "abb-header", e.header << " want " << w << ctx());
                        m::Pieces p = m::AsciiBody(c->db, def.f, b, c->nm, true);
                        p.Add(std::string("\r\n"));
                        size_t at = p.Match(e.body);
                        VT_CHECK(at == std::string::npos, "abb-body", "from byte " << at << ": " << vt::Esc(e.body, 4000) << " want " << vt::Esc(p.Str(), 4000) << ctx());
                        VT_CHECK(e.msg == e.header + e.body, "abb-message", vt::Esc(e.msg) << ctx());
                        if (printable) { FrameCheck(e.msg, f.hdr, ctx()); }
                        break;
                    }
                    default: {
                        nlohmann::json j = nlohmann::json::parse(e.msg, nullptr, false);
                        VT_CHECK(!j.is_discarded(), "json-parse", vt::Esc(e.msg, 4000) << ctx());
                        VT_CHECK(j.is_object() && j.size() == 2 && j.contains("header") && j.contains("body"), "json-shape", vt::Esc(e.msg) << ctx());
                        std::string er = JsonHdr(c->db, h, f.brief, j["header"]);
                        VT_CHECK(er.empty(), "json-header", er << ctx());
                        er = m::JsonRecord(c->db, def.f, b, j["body"], c->nm);
                        VT_CHECK(er.empty(), "json-body", er << " in " << vt::Esc(e.msg, 4000) << ctx());
                        VT_CHECK(nlohmann::json::parse(e.header, nullptr, false) == j["header"] && nlohmann::json::parse(e.body, nullptr, false) == j["body"], "json-ranges", vt::Esc(e.header) << " / " << vt::Esc(e.body) << ctx());
                        break;
                    }
                    }
                    if (k == 0) { vt::Sample(vt::Esc(e.msg, 300)); }
                }
            }
        }
    }
}
VT_SUITE(text) { TextCase(rng, true); }
VT_SUITE(text_raw) { TextCase(rng, false); }

//! A database with one generated message whose fields are replaced by the given ones.
static std::unique_ptr<Ctx> FixedCtx(Rng& rng, std::vector<FieldM> fs)
{
    m::GenOpt o;
    m::DbM db = m::GenDb(rng, o, 1);
    db.msgs[0].defs.resize(1);
    db.msgs[0].defs[0].f = std::move(fs);
    db.msgs[0].latest = db.msgs[0].defs[0].crc;
    return MakeCtx(std::move(db));
}
// Known finding: elements of BOOL arrays (4 bytes each) are addressed as if they were one byte long.
VT_SUITE(bool_arrays)
{
    bool var = vt::S().caseId % 2;
    FieldM f;
    f.name = "flags";
    f.kind = var ? K::Var : K::Fixed;
    f.t = T::BOOL;
    f.size = 4;
    f.alpha = "d";
    f.arrLen = 3;
    auto c = FixedCtx(rng, {f});
    Body b{Val{}};
    b[0].e = {1, 0, 1};
    oem::MessageDecoder dec(c->p);
    std::string what;
    try
    {
        auto x = Make(rng, *c, dec, c->db.msgs[0], c->db.msgs[0].defs[0], b);
        auto defp = c->p->GetMsgDef(static_cast<int32_t>(c->db.msgs[0].id));
        what = Compare(x->d.body, *defp->fieldInfo.at(c->db.msgs[0].defs[0].crc), c->db.msgs[0].defs[0].f, b, ExactEq);
    }
    catch (const vt::Violation& e) { what = e.msg; }
    catch (const std::exception& e) { what = e.what(); }
    vt::Eval();
    vt::Distinct(var);
    if (!what.empty()) { vt::Record(var ? "variable" : "fixed", "array of three BOOLs {1, 0, 1}: " + what); }
}
