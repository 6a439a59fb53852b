// C14: encoding into every capacity from nothing to more than enough, in heap blocks of exactly that capacity (AddressSanitizer).
#include "codec.hpp"
VT_MAIN()
using namespace cx;

struct Fmts { ENCODE_FORMAT e; bool brief; HEADER_FORMAT hdr; const char* n; };
static const Fmts kFmts[] = {{ENCODE_FORMAT::BINARY, false, HEADER_FORMAT::BINARY, "bin"},
                             {ENCODE_FORMAT::BINARY, true, HEADER_FORMAT::SHORT_BINARY, "bin_short"},
                             {ENCODE_FORMAT::FLATTENED_BINARY, false, HEADER_FORMAT::BINARY, "flat"},
                             {ENCODE_FORMAT::FLATTENED_BINARY, true, HEADER_FORMAT::SHORT_BINARY, "flat_short"},
                             {ENCODE_FORMAT::ASCII, false, HEADER_FORMAT::ASCII, "ascii"},
                             {ENCODE_FORMAT::ASCII, true, HEADER_FORMAT::SHORT_ASCII, "ascii_short"},
                             {ENCODE_FORMAT::ABBREV_ASCII, false, HEADER_FORMAT::ABB_ASCII, "abb"},
                             {ENCODE_FORMAT::ABBREV_ASCII, true, HEADER_FORMAT::SHORT_ABB_ASCII, "abb_short"},
                             {ENCODE_FORMAT::JSON, false, HEADER_FORMAT::JSON, "json"},
                             {ENCODE_FORMAT::JSON, true, HEADER_FORMAT::SHORT_BINARY, "json_short"}};

static std::string Str(const unsigned char* p, size_t n) { return std::string(reinterpret_cast<const char*>(p), n); }
//! The capacities to try for a message of n bytes.
static std::vector<size_t> Caps(Rng& r, size_t n)
{
    std::vector<size_t> v;
    if (n <= 220 && r.Chance(0.3)) { for (size_t i = 0; i <= n + 3; ++i) { v.push_back(i); } }
    else
    {
        for (size_t d = 0; d <= 14; ++d) { if (d <= n) { v.push_back(n - d); } }
        for (size_t d = 1; d <= 9; d += 2) { v.push_back(n + d); }
        for (size_t d = 0; d <= 4; ++d) { v.push_back(d); }
        for (int i = 0; i < 45; ++i) { v.push_back(r.Below(n + 1)); }
    }
    return v;
}

static void Sweep(Rng& rng, oem::Encoder& enc, const oem::IntermediateHeader& ih, const CompositeField& src, const std::function<std::string()>& ctx, bool resp)
{
    for (auto& f : kFmts)
    {
        if (resp && (f.e == ENCODE_FORMAT::FLATTENED_BINARY || f.e == ENCODE_FORMAT::JSON)) { continue; }
        Enc e = Encode(enc, ih, src, f.hdr, f.e, 200000);
        if (e.st == STATUS::FAILURE && f.e != ENCODE_FORMAT::ASCII && f.e != ENCODE_FORMAT::ABBREV_ASCII && f.e != ENCODE_FORMAT::JSON)
        {
            vt::Count("too_long"); // for the length in the header
            continue;
        }
        VT_CHECK(e.st == STATUS::SUCCESS, "unlimited", "encoding into 200000 bytes returned " << static_cast<int>(e.st) << " format " << f.n << ctx());
        VT_CHECK(e.err.empty(), "range", e.err << " format " << f.n << ctx());
        size_t n = e.msg.size();
        for (size_t cap : Caps(rng, n))
        {
            auto c2 = [&] { return std::string(" format ") + f.n + " capacity " + std::to_string(cap) + " needed " + std::to_string(n) + ctx(); };
            Enc g = Encode(enc, ih, src, f.hdr, f.e, cap, static_cast<unsigned char>(rng.Next()));
            vt::Eval();
            if (cap < n) { VT_CHECK(g.st == STATUS::BUFFER_FULL, "short", "returned " << static_cast<int>(g.st) << c2()); vt::Count(std::string("full.") + f.n); }
            else
            {
                VT_CHECK(g.st == STATUS::SUCCESS, "enough", "returned " << static_cast<int>(g.st) << c2());
                VT_CHECK(g.err.empty(), "range", g.err << c2());
                VT_CHECK(g.msg == e.msg && g.header == e.header && g.body == e.body, "bytes", vt::Esc(g.msg) << " want " << vt::Esc(e.msg) << c2());
                vt::Count(std::string("fit.") + f.n);
            }
        }
        vt::Distinct(vt::HashStr(e.msg));
        vt::Sample(vt::Esc(e.msg, 200));

        // the header and the body on their own
        if (resp && f.e == ENCODE_FORMAT::ABBREV_ASCII) { continue; }
        const auto& fields = src.GetFieldInfo()->messageOrderedFields;
        for (int emb = 0; emb < (f.e == ENCODE_FORMAT::ABBREV_ASCII && !f.brief ? 2 : 1); ++emb)
        {
            auto head = [&](size_t cap, std::string& out) {
                std::unique_ptr<unsigned char[]> b(new unsigned char[cap]);
                unsigned char* p = b.get();
                MessageDataStruct md;
                STATUS st = enc.EncodeHeader(&p, static_cast<uint32_t>(cap), ih, md, f.hdr, f.e, emb != 0);
                if (st == STATUS::SUCCESS)
                {
                    VT_CHECK(md.pucMessageHeader == b.get() && md.uiMessageHeaderLength <= cap, "header-range", "reported header outside the buffer, format " << f.n << ctx());
                    out = Str(md.pucMessageHeader, md.uiMessageHeaderLength);
                }
                return st;
            };
            std::string full;
            VT_CHECK(head(4000, full) == STATUS::SUCCESS, "header-unlimited", "format " << f.n << ctx());
            std::string want = e.header;
            if (f.e == ENCODE_FORMAT::BINARY || f.e == ENCODE_FORMAT::FLATTENED_BINARY) // the length is set by the body
            {
                size_t at = f.brief ? 3 : 8, len = f.brief ? 1 : 2;
                want.replace(at, len, full, at, len);
            }
            if (!emb) { VT_CHECK(full == want, "header-bytes", vt::Esc(full) << " want " << vt::Esc(want) << " format " << f.n << ctx()); }
            for (size_t cap = 0; cap <= full.size() + 2; cap += 1 + rng.Below(3))
            {
                std::string got;
                STATUS st = head(cap, got);
                vt::Eval();
                VT_CHECK(st == (cap < full.size() ? STATUS::BUFFER_FULL : STATUS::SUCCESS), "header-status", "returned " << static_cast<int>(st) << " capacity " << cap << " needed " << full.size() << " format " << f.n << " embedded " << emb << ctx());
                VT_CHECK(st != STATUS::SUCCESS || got == full, "header-bytes", vt::Esc(got) << " want " << vt::Esc(full) << " format " << f.n << ctx());
                vt::Count("header");
            }
        }
        for (size_t cap : Caps(rng, e.body.size()))
        {
            if (!rng.Chance(0.4)) { continue; }
            // as in a message: the header is in place right before, with the body's buffer ending where it was said to end
            std::unique_ptr<unsigned char[]> b(new unsigned char[e.header.size() + cap]);
            memcpy(b.get(), e.header.data(), e.header.size());
            unsigned char* p = b.get() + e.header.size();
            MessageDataStruct md;
            md.pucMessageHeader = b.get();
            md.uiMessageHeaderLength = static_cast<uint32_t>(e.header.size());
            STATUS st = enc.EncodeBody(&p, static_cast<uint32_t>(cap), src, fields, md, f.hdr, f.e);
            auto c2 = [&] { return std::string(" body, format ") + f.n + " capacity " + std::to_string(cap) + " needed " + std::to_string(e.body.size()) + ctx(); };
            vt::Eval();
            VT_CHECK(st == (cap < e.body.size() ? STATUS::BUFFER_FULL : STATUS::SUCCESS), "body-status", "returned " << static_cast<int>(st) << c2());
            if (st == STATUS::SUCCESS)
            {
                VT_CHECK(md.pucMessageBody == b.get() + e.header.size() && md.uiMessageBodyLength == e.body.size(), "body-range", "reported length " << md.uiMessageBodyLength << c2());
                VT_CHECK(Str(b.get(), e.header.size() + e.body.size()) == e.header + e.body, "body-bytes", vt::Esc(Str(b.get(), e.header.size() + e.body.size())) << c2());
            }
            else if (e.header.size() && f.e != ENCODE_FORMAT::BINARY && f.e != ENCODE_FORMAT::FLATTENED_BINARY)
            {
                VT_CHECK(Str(b.get(), e.header.size()) == e.header, "body-header", "the header before the body was changed" << c2());
            }
            vt::Count("body");
        }
    }
}

VT_SUITE(sweep)
{
    m::GenOpt o;
    o.lenRef = rng.Chance(0.2);
    o.empty = rng.Chance(0.1);
    if (rng.Chance(0.5)) { o.maxFields = 3; }
    auto c = MakeCtx(rng, o, 1);
    oem::MessageDecoder dec(c->p);
    oem::Encoder enc(c->p);
    m::ValOpt vo;
    vo.text = rng.Chance(0.3);
    vo.special = rng.Chance(0.5);
    vo.msgIds = MsgIdValues(c->db);
    for (auto& mm : c->db.msgs)
    {
        auto& def = mm.defs[rng.Below(mm.defs.size())];
        vo.full = rng.Chance(0.3);
        Body b = m::GenBody(rng, def.f, c->db, vo);
        std::string bin = m::BinaryBody(def.f, b);
        Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), def.crc);
        CompositeField src;
        oem::MetaDataStruct md0;
        FillMeta(md0, h, mm.name, HEADER_FORMAT::BINARY, bin.size());
        VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), src, md0) == STATUS::SUCCESS, "decode", "decode of a well-formed body failed");
        Sweep(rng, enc, ToInter(h), src, [&] { return " body " + vt::Hex(bin) + " def " + Describe(mm, c->db); }, false);
    }
}
VT_SUITE(sweep_response)
{
    auto c = MakeCtx(rng, m::GenOpt{}, 1);
    oem::MessageDecoder dec(c->p);
    oem::Encoder enc(c->p);
    Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(c->db.msgs[0].id), c->db.msgs[0].defs[0].crc);
    h.resp = true;
    std::string text = rng.PickOf({"OK", "ERROR:", "ERROR:Invalid Message. Field = 3"}), bin = raw::LE(rng.Below(5), 4) + text;
    for (size_t i = rng.Below(60); i; --i) { text += m::SafeChar(rng); }
    bin = raw::LE(rng.Below(5), 4) + text;
    CompositeField src;
    oem::MetaDataStruct md0;
    FillMeta(md0, h, c->db.msgs[0].name, HEADER_FORMAT::BINARY, bin.size());
    VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), src, md0) == STATUS::SUCCESS, "decode", "decode of a response failed");
    Sweep(rng, enc, ToInter(h), src, [&] { return " response " + vt::Esc(text); }, true);
}
