// C22: RXCONFIG logs: what is wrapped comes out the same in every format; what is not one is refused.
#include "rxctx.hpp"
#include <novatel_edie/decoders/oem/framer.hpp>
#include <novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp>
VT_MAIN()
using namespace cx;
using oem::IntermediateHeader;
using oem::MetaDataStruct;

struct Fmt { ENCODE_FORMAT e; HEADER_FORMAT lng, brief; const char* n; };
static const Fmt kF[] = {{ENCODE_FORMAT::ASCII, HEADER_FORMAT::ASCII, HEADER_FORMAT::SHORT_ASCII, "ascii"},
                         {ENCODE_FORMAT::ABBREV_ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::SHORT_ABB_ASCII, "abb"},
                         {ENCODE_FORMAT::BINARY, HEADER_FORMAT::BINARY, HEADER_FORMAT::SHORT_BINARY, "bin"},
                         {ENCODE_FORMAT::JSON, HEADER_FORMAT::JSON, HEADER_FORMAT::SHORT_BINARY, "json"}};
static const size_t kCap = 32768;

//! The parts of a wrapped message, in the order they appear.
struct Wrapped
{
    std::string msg;
    size_t hAt = 0, hLen = 0, bAt = 0, bLen = 0;             // outer
    size_t eAt = 0, eLen = 0, ehAt = 0, ehLen = 0, ebAt = 0, ebLen = 0; // embedded
};
//! Wraps `e`, a message of format f as it stands on its own, by the rules of the format.
static Wrapped Wrap(const DbM& db, const Fmt& f, const Hdr& outer, const Enc& e)
{
    Wrapped w;
    if (f.e == ENCODE_FORMAT::ASCII)
    {
        std::string h = AsciiHdr(db, outer, false), in = e.msg.substr(0, e.msg.size() - 10); // up to and including '*'
        in += raw::Hex8(~raw::Crc32(in.substr(1, in.size() - 2)));
        w.msg = raw::AsciiWrap('#', h.substr(1) + in);
        w.hLen = w.bAt = w.eAt = w.ehAt = h.size();
        w.bLen = w.msg.size() - w.bAt;
        w.eLen = in.size();
        w.ehLen = e.header.size();
        w.ebAt = w.ehAt + w.ehLen;
        w.ebLen = w.eLen - w.ehLen;
    }
    else if (f.e == ENCODE_FORMAT::BINARY)
    {
        std::string in = e.msg.substr(0, e.msg.size() - 4);
        in += raw::LE(static_cast<uint32_t>(~raw::Crc32(in)), 4);
        std::string h = BinHdr(outer, false, in.size());
        w.msg = raw::BinWrap(h + in);
        w.hLen = w.bAt = w.eAt = w.ehAt = h.size();
        w.bLen = in.size() + 4;
        w.eLen = in.size();
        w.ehLen = e.header.size();
        w.ebAt = w.ehAt + w.ehLen;
        w.ebLen = w.eLen - w.ehLen;
    }
    else if (f.e == ENCODE_FORMAT::ABBREV_ASCII)
    {
        std::string h = AbbHdr(db, outer, false);
        std::string eh = "<     " + e.header.substr(1, e.header.size() - 3) + " \r\n";
        w.msg = h + eh + e.body;
        w.hLen = w.bAt = w.eAt = w.ehAt = h.size();
        w.bLen = w.eLen = eh.size() + e.body.size();
        w.ehLen = eh.size();
        w.ebAt = w.ehAt + w.ehLen;
        w.ebLen = e.body.size();
    }
    return w;
}
static std::string Str(const unsigned char* p, uint32_t n) { return std::string(reinterpret_cast<const char*>(p), n); }
//! What the format of the source leaves of a header.
static Hdr Project(Hdr h, const Fmt& f, bool brief)
{
    if (f.e == ENCODE_FORMAT::BINARY)
    {
        if (brief) { h.sib = 0; }
        h.port &= 0xFF;
        h.defcrc &= 0xFFFF;
    }
    return h;
}

struct Conv { STATUS st; std::string msg; MessageDataStruct o, e; MetaDataStruct om, em; };
static Conv Run(oem::RxConfigHandler& rx, const std::string& in, ENCODE_FORMAT f)
{
    Conv c;
    (void)rx.Write(reinterpret_cast<const unsigned char*>(in.data()), static_cast<uint32_t>(in.size()));
    for (;;)
    {
        c.st = rx.Convert(c.o, c.om, c.e, c.em, f);
        if (c.st == STATUS::SUCCESS) { c.msg = Str(c.o.pucMessage, c.o.uiMessageLength); }
        return c;
    }
}

VT_SUITE(convert)
{
    m::GenOpt o;
    o.text = o.json = true;
    auto c = RxCtx(rng, o);
    oem::MessageDecoder dec(c->p);
    oem::HeaderDecoder hd(c->p);
    oem::Encoder enc(c->p);
    oem::RxConfigHandler rx(c->p), rx2(c->p);
    m::ValOpt vo;
    vo.text = vo.canonBool = true;
    vo.msgIds = MsgIdValues(c->db);
    for (auto& mm : c->db.msgs)
    {
        if (mm.id == kRx || mm.id == kRxUser) { continue; }
        const auto& def = mm.Latest();
        const auto& fi = *c->p->GetMsgDef(static_cast<int32_t>(mm.id))->fieldInfo.at(def.crc);
        for (int k = 0; k < 3; ++k)
        {
            vo.knownEnum = k != 2;
            Body b = m::GenBody(rng, def.f, c->db, vo);
            std::string bin = m::BinaryBody(def.f, b);
            uint16_t id = rng.Chance(0.5) ? kRx : kRxUser;
            bool known = c->db.Msg(id) != nullptr;
            Hdr outer = GenHdr(rng, c->db, id, static_cast<uint32_t>(rng.Chance(0.5) ? 0x1234 : rng.Next())), eh = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), def.crc);
            if (rng.Chance(0.5)) { eh.defcrc = static_cast<uint32_t>(rng.Next()); for (auto& d : mm.defs) { if (d.crc == eh.defcrc || d.crc == (eh.defcrc & 0xFFFF)) { eh.defcrc = def.crc; } } }
            bool other = false; // the part of the CRC that binary carries could name another definition
            for (auto& d : mm.defs) { other |= d.crc != def.crc && (d.crc == eh.defcrc || d.crc == (eh.defcrc & 0xFFFF)); }
            if (other) { continue; }
            bool brief = rng.Chance(0.2);
            CompositeField src;
            MetaDataStruct md;
            FillMeta(md, eh, mm.name, HEADER_FORMAT::BINARY, bin.size());
            md.uiMessageCrc = def.crc;
            VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), src, md) == STATUS::SUCCESS, "decode", "decode of a well-formed body failed");
            const auto& f = kF[rng.Below(3)];
            if (brief && f.e == ENCODE_FORMAT::BINARY && bin.size() > 255) { brief = false; }
            Enc e = Encode(enc, ToInter(eh), src, brief ? f.brief : f.lng, f.e, 60000);
            VT_CHECK(e.st == STATUS::SUCCESS, "encode", "encoding returned " << static_cast<int>(e.st));
            if (e.msg.size() > 8000) { vt::Count("too_long"); continue; }
            Wrapped in = Wrap(c->db, f, outer, e);
            auto ctx = [&] { return std::string(" from ") + f.n + (brief ? " (short)" : "") + " message " + vt::Esc(in.msg, 3000) + " def " + Describe(mm, c->db); };
            // what the embedded message says, by itself
            std::string own = e.msg + std::string(64, '\0');
            IntermediateHeader ih;
            MetaDataStruct em;
            VT_CHECK(hd.Decode(reinterpret_cast<const unsigned char*>(own.data()), ih, em) == STATUS::SUCCESS, "own-header", "header of the embedded message refused" << ctx());
            em.uiLength = static_cast<uint32_t>(e.msg.size());
            CompositeField own_b;
            VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(own.data()) + em.uiHeaderLength, own_b, em) == STATUS::SUCCESS, "own-body", "body of the embedded message refused" << ctx());
            Hdr po = Project(outer, f, false), pe = Project(eh, f, brief);

            for (auto& g : kF)
            {
                if (g.e == ENCODE_FORMAT::BINARY && brief)
                {
                    Enc x = Encode(enc, ToInter(pe), own_b, g.brief, g.e, 60000);
                    if (x.st != STATUS::SUCCESS) { continue; }
                }
                Conv r = Run(rx, in.msg + "\n\n", g.e);
                auto ctx2 = [&] { return std::string(" to ") + g.n + " got " + vt::Esc(r.msg, 3000) + ctx(); };
                if (!known)
                {
                    VT_CHECK(r.st != STATUS::SUCCESS, "no-definition", "converted without a definition" << ctx2());
                    VT_CHECK(f.e != ENCODE_FORMAT::BINARY || r.st == STATUS::NO_DEFINITION, "no-definition", "returned " << static_cast<int>(r.st) << " without a definition" << ctx2());
                    rx.Flush();
                    vt::Count("no_definition");
                    continue;
                }
                VT_CHECK(r.st == STATUS::SUCCESS, "status", "conversion returned " << static_cast<int>(r.st) << ctx2());
                rx.Flush();
                // the embedded message in the other format: the encoder's own, with a header made here
                Enc want = Encode(enc, ToInter(pe), own_b, brief ? g.brief : g.lng, g.e, 60000);
                VT_CHECK(want.st == STATUS::SUCCESS, "own-encode", "encoding the embedded message returned " << static_cast<int>(want.st) << ctx2());
                auto rng_eq = [&](const char* what, const unsigned char* p, uint32_t n, size_t at, size_t len) {
                    VT_CHECK(p == r.o.pucMessage + at && n == len, std::string("range-") + what, what << " at " << (p - r.o.pucMessage) << " length " << n << " want " << at << " length " << len << ctx2());
                };
                Wrapped w;
                if (g.e != ENCODE_FORMAT::JSON)
                {
                    w = Wrap(c->db, g, po, want);
                    VT_CHECK(r.msg == w.msg, "message", "want " << vt::Esc(w.msg, 3000) << ctx2());
                }
                else
                {
                    const std::string a = "{\"header\": ", b2 = ",\"body\": ";
                    size_t hEnd = r.msg.find(b2);
                    VT_CHECK(r.msg.compare(0, a.size(), a) == 0 && hEnd != std::string::npos && r.msg == r.msg.substr(0, hEnd) + b2 + want.msg + "}", "json", "want body " << vt::Esc(want.msg, 3000) << ctx2());
                    auto j = nlohmann::json::parse(r.msg, nullptr, false);
                    VT_CHECK(j.is_object(), "json-parse", "not a JSON object" << ctx2());
                    std::string d = JsonHdr(c->db, po, false, j["header"]);
                    VT_CHECK(d.empty(), "json-header", d << ctx2());
                    d = JsonHdr(c->db, pe, brief, j["body"]["header"]);
                    VT_CHECK(d.empty(), "json-embedded-header", d << ctx2());
                    w.hAt = a.size();
                    w.hLen = hEnd - a.size();
                    w.bAt = w.eAt = hEnd + b2.size();
                    w.bLen = w.eLen = want.msg.size();
                    w.ehAt = w.eAt + a.size();
                    w.ehLen = want.header.size();
                    w.ebLen = want.body.size();
                    w.ebAt = w.eAt + want.msg.size() - 1 - w.ebLen;
                    w.msg = r.msg;
                }
                rng_eq("header", r.o.pucMessageHeader, r.o.uiMessageHeaderLength, w.hAt, w.hLen);
                rng_eq("body", r.o.pucMessageBody, r.o.uiMessageBodyLength, w.bAt, w.bLen);
                rng_eq("embedded", r.e.pucMessage, r.e.uiMessageLength, w.eAt, w.eLen);
                rng_eq("embedded-header", r.e.pucMessageHeader, r.e.uiMessageHeaderLength, w.ehAt, w.ehLen);
                rng_eq("embedded-body", r.e.pucMessageBody, r.e.uiMessageBodyLength, w.ebAt, w.ebLen);
                VT_CHECK(r.om.usMessageId == id && r.em.usMessageId == mm.id && r.em.messageName == mm.name && r.em.usWeek == eh.week && r.em.dMilliseconds == eh.ms && r.om.usWeek == outer.week && r.om.dMilliseconds == outer.ms, "metadata",
                         "metadata: outer " << r.om.usMessageId << " embedded " << r.em.usMessageId << " " << r.em.messageName << ctx2());
                vt::Eval();
                vt::Distinct(vt::HashStr(r.msg));
                vt::Count(std::string(f.n) + "." + g.n + (brief ? ".short" : ""));
                vt::Sample(vt::Esc(in.msg, 200) + " -> " + vt::Esc(r.msg, 300));
                if (g.e == ENCODE_FORMAT::JSON) { continue; }
                if (!vo.knownEnum) { continue; } // text does not tell unknown values apart
                // independently of the library's decoders: the values in the binary form are the ones it started from
                if (g.e == ENCODE_FORMAT::BINARY && f.e == ENCODE_FORMAT::BINARY)
                {
                    VT_CHECK(r.msg == in.msg, "same", "binary to binary changed" << ctx2());
                    MetaDataStruct m3;
                    FillMeta(m3, eh, mm.name, HEADER_FORMAT::BINARY, w.ebLen - 4);
                    m3.uiMessageCrc = def.crc;
                    CompositeField back;
                    VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(r.msg.data()) + w.ebAt, back, m3) == STATUS::SUCCESS, "value-status", "embedded body refused" << ctx2());
                    std::string d = Compare(back, fi, def.f, b, ExactEq);
                    VT_CHECK(d.empty(), "value", d << ctx2());
                }
                // and on to a third format
                const auto& t = kF[rng.Below(4)];
                if (t.e == ENCODE_FORMAT::BINARY && brief) { continue; }
                if (f.e != ENCODE_FORMAT::BINARY && g.e == ENCODE_FORMAT::BINARY) { continue; } // binary headers carry less than text
                Conv direct = Run(rx, in.msg + "\n\n", t.e);
                rx.Flush();
                if (direct.msg.size() > kCap) { continue; }
                Conv on = Run(rx2, w.msg + "\n\n", t.e);
                rx2.Flush();
                VT_CHECK(on.st == direct.st, "on-status", "on to " << t.n << " returned " << static_cast<int>(on.st) << " directly " << static_cast<int>(direct.st) << ctx2());
                bool floats = false, switching = false; // text does not show all of these: digits of numbers, bytes after the end of a text
                std::function<void(const std::vector<FieldM>&)> look = [&](const std::vector<FieldM>& fs) { for (auto& x : fs) { floats |= x.t == T::FLOAT || x.t == T::DOUBLE || x.alpha == "m" || ((x.kind == K::Fixed || x.kind == K::Var) && (x.alpha == "s" || x.alpha == "S")); switching |= x.alpha.find_first_of("gk") != std::string::npos; look(x.sub); } };
                look(def.f);
                if (switching) { vt::Count("on.floats"); continue; } // the choice between the two styles is made before rounding
                if (floats && (t.e == ENCODE_FORMAT::BINARY || t.e == ENCODE_FORMAT::JSON || g.e != t.e)) { vt::Count("on.floats"); continue; }
                VT_CHECK(on.msg == direct.msg, "on", "on to " << t.n << " gives " << vt::Esc(on.msg, 2000) << " directly " << vt::Esc(direct.msg, 2000) << ctx2());
                vt::Count("on");
            }
        }
    }
}

//! One embedded message as a source, in the form it has on its own.
struct Src
{
    const m::MsgM* mm = nullptr;
    Hdr h;
    bool brief = false;
    Enc e;
    const Fmt* f = nullptr;
};
static Src GenSrc(Rng& rng, Ctx& c, oem::MessageDecoder& dec, oem::Encoder& enc, const m::ValOpt& vo)
{
    Src s;
    for (;;)
    {
        s.mm = &c.db.msgs[rng.Below(c.db.msgs.size())];
        if (s.mm->id == kRx || s.mm->id == kRxUser) { continue; }
        const auto& def = s.mm->Latest();
        Body b = m::GenBody(rng, def.f, c.db, vo);
        std::string bin = m::BinaryBody(def.f, b);
        s.h = GenHdr(rng, c.db, static_cast<uint16_t>(s.mm->id), def.crc);
        s.brief = rng.Chance(0.2) && bin.size() <= 255;
        s.f = &kF[rng.Below(3)];
        CompositeField src;
        MetaDataStruct md;
        FillMeta(md, s.h, s.mm->name, HEADER_FORMAT::BINARY, bin.size());
        VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), src, md) == STATUS::SUCCESS, "decode", "decode of a well-formed body failed");
        s.e = Encode(enc, ToInter(s.h), src, s.brief ? s.f->brief : s.f->lng, s.f->e, 60000);
        VT_CHECK(s.e.st == STATUS::SUCCESS, "encode", "encoding returned " << static_cast<int>(s.e.st));
        if (s.e.msg.size() <= 4000) { return s; }
    }
}
static std::unique_ptr<Ctx> KnownRx(Rng& rng)
{
    m::GenOpt o;
    o.text = o.json = true;
    for (;;)
    {
        auto c = RxCtx(rng, o);
        if (c->db.Msg(kRx) && c->db.Msg(kRxUser)) { return c; }
    }
}
//! Every capacity: all of the message or none of it, and nothing beyond the buffer.
VT_SUITE(sizes)
{
    auto c = KnownRx(rng);
    oem::MessageDecoder dec(c->p);
    oem::HeaderDecoder hd(c->p);
    oem::Encoder enc(c->p);
    oem::RxConfigHandler rx(c->p);
    m::ValOpt vo;
    vo.text = true;
    vo.msgIds = MsgIdValues(c->db);
    Src s = GenSrc(rng, *c, dec, enc, vo);
    Hdr outer = GenHdr(rng, c->db, rng.Chance(0.5) ? kRx : kRxUser, 0x1234);
    Wrapped in = Wrap(c->db, *s.f, outer, s.e);
    std::string z = in.msg + '\0';
    IntermediateHeader ih;
    MetaDataStruct md;
    VT_CHECK(hd.Decode(reinterpret_cast<const unsigned char*>(z.data()), ih, md) == STATUS::SUCCESS, "header", "header refused " << vt::Esc(in.msg));
    md.uiLength = static_cast<uint32_t>(in.msg.size());
    CompositeField b;
    VT_CHECK(rx.Decode(reinterpret_cast<const unsigned char*>(z.data()) + md.uiHeaderLength, b, md) == STATUS::SUCCESS, "body", "body refused " << vt::Esc(in.msg));
    for (auto& g : kF)
    {
        auto run = [&](size_t cap, std::string& out) {
            std::unique_ptr<unsigned char[]> buf(new unsigned char[cap]);
            unsigned char* p = buf.get();
            MessageDataStruct d;
            STATUS st = rx.Encode(&p, static_cast<uint32_t>(cap), ih, b, d, g.e);
            if (st == STATUS::SUCCESS)
            {
                VT_CHECK(d.pucMessage == buf.get() && d.uiMessageLength <= cap, "range", "reported message outside the buffer, capacity " << cap);
                out = Str(d.pucMessage, d.uiMessageLength);
            }
            return st;
        };
        std::string full;
        STATUS st = run(100000, full);
        if (st != STATUS::SUCCESS) // a short binary header has no room for the length
        {
            VT_CHECK(g.e == ENCODE_FORMAT::BINARY && s.brief, "status", "encoding to " << g.n << " returned " << static_cast<int>(st) << " " << vt::Esc(in.msg));
            continue;
        }
        size_t n = full.size();
        std::vector<size_t> caps;
        for (size_t k = 0; k < 40 && k <= n; ++k) { caps.push_back(n - k); }
        for (size_t k = 0; k < 12; ++k) { caps.push_back(k); caps.push_back(n + k); }
        for (int k = 0; k < 60; ++k) { caps.push_back(rng.Below(n + 1)); }
        // around the places where the parts meet
        for (size_t at : {in.hLen, in.ebAt}) { for (size_t k = 0; k < 12; ++k) { caps.push_back(at + k); if (at >= k) { caps.push_back(at - k); } } }
        for (size_t cap : caps)
        {
            std::string got;
            st = run(cap, got);
            auto ctx = [&] { return std::string(" to ") + g.n + " capacity " + std::to_string(cap) + " needed " + std::to_string(n) + " from " + vt::Esc(in.msg); };
            if (cap >= n + 1) { VT_CHECK(st == STATUS::SUCCESS && got == full, "enough", "returned " << static_cast<int>(st) << ctx()); vt::Count("fit"); }
            else if (cap < n) { VT_CHECK(st == STATUS::BUFFER_FULL, "short", "returned " << static_cast<int>(st) << ctx()); vt::Count("full"); }
            else if (st == STATUS::SUCCESS) { VT_CHECK(got == full, "exact", "other bytes" << ctx()); vt::Count("exact"); }
            else { VT_CHECK(st == STATUS::BUFFER_FULL, "exact", "returned " << static_cast<int>(st) << ctx()); vt::Count("exact_full"); }
            vt::Eval();
        }
        vt::Distinct(vt::HashStr(full));
    }
    for (auto e : {ENCODE_FORMAT::FLATTENED_BINARY, ENCODE_FORMAT::UNSPECIFIED})
    {
        std::vector<unsigned char> buf(kCap);
        unsigned char* p = buf.data();
        MessageDataStruct d;
        VT_CHECK(rx.Encode(&p, kCap, ih, b, d, e) == STATUS::UNSUPPORTED, "unsupported", "a format that cannot wrap a message was accepted");
    }
}
//! Damaged, cut, and otherwise wrong logs, with a correct outer checksum: refused, or the same as what they hold by itself.
VT_SUITE(hostile)
{
    auto c = KnownRx(rng);
    oem::MessageDecoder dec(c->p);
    oem::HeaderDecoder hd(c->p);
    oem::Encoder enc(c->p);
    oem::RxConfigHandler rx(c->p);
    m::ValOpt vo;
    vo.text = true;
    vo.msgIds = MsgIdValues(c->db);
    for (int round = 0; round < 12; ++round)
    {
        Src s = GenSrc(rng, *c, dec, enc, vo);
        Hdr outer = GenHdr(rng, c->db, rng.Chance(0.5) ? kRx : kRxUser, 0x1234);
        Wrapped in = Wrap(c->db, *s.f, outer, s.e);
        std::string head = in.msg.substr(0, in.bAt), pay = in.msg.substr(in.bAt, in.eLen); // what the log holds, with its checksum
        const bool ascii = s.f->e == ENCODE_FORMAT::ASCII, bin = s.f->e == ENCODE_FORMAT::BINARY;
        switch (rng.Below(9))
        {
        case 0: pay.resize(rng.Below(pay.size() + 1)); break;                       // cut
        case 1: pay.resize(rng.Below(std::min<size_t>(pay.size(), 14) + 1)); break; // hardly anything left
        case 2: case 3: for (size_t n = 1 + rng.Below(4); n--;) { pay[rng.Below(pay.size())] = rng.PickOf({'\0', ',', ' ', ';', '"', 'x', '7', '\xff', '\xaa', '#', '%', '<', '-'}); } break;
        case 4: if (bin) { if (s.brief) { pay[3] = static_cast<char>(rng.Next()); } else { uint16_t n = static_cast<uint16_t>(rng.Chance(0.5) ? rng.Next() : in.ebLen + rng.Below(9) - 8); memcpy(&pay[8], &n, 2); } } break; // its own length
        case 5: pay[0] = rng.PickOf({'#', '%', '<', '$', '{', '\xaa', ' '}); break; // another format
        case 6: if (ascii && pay.size() > 8) { pay[pay.size() - 1 - rng.Below(8)] = rng.PickOf({'g', ' ', '-', 'F', '0', '*'}); } break; // its checksum
        case 7: { // a log inside a log
            if (bin && pay.size() >= 28) { uint16_t id = rng.Chance(0.5) ? kRx : static_cast<uint16_t>(rng.Next()); memcpy(&pay[4], &id, 2); }
            else if (!bin) { pay = in.msg.substr(0, in.bAt + in.eLen); }
            break;
        }
        default: pay.insert(rng.Below(pay.size() + 1), rng.Bytes(1 + rng.Below(12))); break;
        }
        std::string frame;
        if (bin)
        {
            uint16_t n = static_cast<uint16_t>(pay.size());
            memcpy(&head[8], &n, 2);
            frame = raw::BinWrap(head + pay);
        }
        else if (ascii) { frame = raw::AsciiWrap('#', head.substr(1) + pay); }
        else
        {
            frame = head + pay;
            if (frame.substr(frame.size() - 2) != "\r\n") { frame += "\r\n"; }
            pay = frame.substr(head.size());
        }
        auto ctx = [&] { return std::string(" ") + s.f->n + " log " + vt::Esc(frame, 2000) + " def " + Describe(*s.mm, c->db); };
        // the reference: what it holds, taken out and given to the separate components
        bool ok = true;
        std::string own;
        if (ascii)
        {
            ok = pay.size() >= 8 && pay.find_first_not_of("0123456789abcdefABCDEF", pay.size() - 8) == std::string::npos;
            if (ok) { own = pay.substr(0, pay.size() - 8) + "00000000\r\n"; }
        }
        else if (bin)
        {
            ok = pay.size() >= 4;
            own = pay;
        }
        else
        {
            size_t at = pay.find_first_not_of(" <\r\n");
            own = at == std::string::npos ? "" : "<" + pay.substr(at);
            ok = at != std::string::npos;
        }
        std::string padded = own + std::string(64, '\0');
        IntermediateHeader ih;
        MetaDataStruct em;
        CompositeField own_b;
        ok = ok && hd.Decode(reinterpret_cast<const unsigned char*>(padded.data()), ih, em) == STATUS::SUCCESS;
        em.uiLength = static_cast<uint32_t>(own.size());
        bool embBin = em.eFormat == HEADER_FORMAT::BINARY || em.eFormat == HEADER_FORMAT::SHORT_BINARY;
        ok = ok && em.uiLength >= em.uiHeaderLength + (embBin ? em.uiBinaryMsgLength + 4 : 0);
        ok = ok && dec.Decode(reinterpret_cast<const unsigned char*>(padded.data()) + em.uiHeaderLength, own_b, em) == STATUS::SUCCESS;

        std::unique_ptr<unsigned char[]> buf(new unsigned char[frame.size() + 1]); // a framed text message is terminated
        memcpy(buf.get(), frame.data(), frame.size());
        buf[frame.size()] = 0;
        IntermediateHeader oh;
        MetaDataStruct om;
        if (hd.Decode(buf.get(), oh, om) != STATUS::SUCCESS) { vt::Count("outer_refused"); continue; }
        om.uiLength = static_cast<uint32_t>(frame.size());
        CompositeField body;
        STATUS st = rx.Decode(buf.get() + om.uiHeaderLength, body, om);
        memset(buf.get(), 0x5A, frame.size());
        const auto& g = kF[rng.Below(4)];
        std::string out;
        if (st == STATUS::SUCCESS)
        {
            std::unique_ptr<unsigned char[]> eb(new unsigned char[60000]);
            unsigned char* p = eb.get();
            MessageDataStruct d;
            st = rx.Encode(&p, 60000, oh, body, d, g.e);
            if (st == STATUS::SUCCESS)
            {
                VT_CHECK(d.pucMessage == eb.get() && d.uiMessageLength <= 60000, "range", "reported message outside the buffer" << ctx());
                out = Str(d.pucMessage, d.uiMessageLength);
            }
        }
        vt::Eval();
        vt::Distinct(vt::HashStr(frame));
        vt::Count("status." + std::to_string(static_cast<int>(st)));
        if (!ok) { VT_CHECK(st != STATUS::SUCCESS, "accepted", "to " << g.n << " gave " << vt::Esc(out) << ctx()); vt::Count("refused"); continue; }
        // as the encoder would wrap it
        Enc want = Encode(enc, ih, own_b, em.eFormat, g.e, 60000);
        if (want.st != STATUS::SUCCESS || (em.bResponse && g.e == ENCODE_FORMAT::ABBREV_ASCII)) { VT_CHECK(want.st == STATUS::SUCCESS || st != STATUS::SUCCESS, "encoded", "to " << g.n << " gave " << vt::Esc(out) << ctx()); continue; }
        VT_CHECK(st == STATUS::SUCCESS, "refused", "to " << g.n << " returned " << static_cast<int>(st) << ctx());
        if (g.e == ENCODE_FORMAT::JSON) { VT_CHECK(out.size() > want.msg.size() && out.compare(out.size() - want.msg.size() - 1, std::string::npos, want.msg + "}") == 0, "json", "got " << vt::Esc(out) << " want body " << vt::Esc(want.msg) << ctx()); }
        else
        {
            Wrapped w = Wrap(c->db, g, Project(outer, *s.f, false), want);
            VT_CHECK(out == w.msg, "message", "to " << g.n << " got " << vt::Esc(out, 2000) << " want " << vt::Esc(w.msg, 2000) << ctx());
        }
        vt::Count("accepted");

        // and through the conversion interface, which frames for itself
        Conv r = Run(rx, frame + "\n\n", g.e);
        rx.Flush();
        vt::Count("convert." + std::to_string(static_cast<int>(r.st)));
        VT_CHECK(r.st == STATUS::SUCCESS || r.st == STATUS::UNKNOWN || r.st == STATUS::BUFFER_EMPTY || !ok || s.f->e == ENCODE_FORMAT::ABBREV_ASCII, "convert-status", "returned " << static_cast<int>(r.st) << ctx());
        if (r.st == STATUS::SUCCESS && !out.empty()) { VT_CHECK(r.msg == out || s.f->e == ENCODE_FORMAT::ABBREV_ASCII, "convert", "converted to " << vt::Esc(r.msg, 2000) << " want " << vt::Esc(out, 2000) << ctx()); }
    }
}
