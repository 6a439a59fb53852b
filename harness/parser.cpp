// C17: the parser and the file parser against the separate components, run by hand over the same bytes.
#include "rxctx.hpp"
#include <novatel_edie/decoders/oem/file_parser.hpp>
#include <novatel_edie/decoders/oem/filter.hpp>
#include <novatel_edie/decoders/oem/framer.hpp>
#include <novatel_edie/decoders/oem/parser.hpp>
#include <sstream>
VT_MAIN()
using namespace cx;
using oem::IntermediateHeader;
using oem::MetaDataStruct;

static constexpr uint32_t kBuf = oem::Parser::uiParserInternalBufferSize;

// ---------------------------------------------------------------- what a read gives
struct Out
{
    STATUS st = STATUS::UNKNOWN;
    std::string msg, header, body; // as MessageDataStruct shows them
    MetaDataStruct md;
    IntermediateHeader h; // ReadIntermediate only
    std::string fields;   // ReadIntermediate only: the body encoded
    bool inter = false;
};
static std::string MetaText(const MetaDataStruct& m)
{
    std::ostringstream o;
    o << "format " << static_cast<int>(m.eFormat) << " response " << m.bResponse << " time " << m.usWeek << ":" << m.dMilliseconds << " status " << static_cast<int>(m.eTimeStatus) << " length " << m.uiLength << " binary " << (m.eFormat == HEADER_FORMAT::BINARY || m.eFormat == HEADER_FORMAT::SHORT_BINARY || m.eFormat == HEADER_FORMAT::PROPRIETARY_BINARY ? m.uiBinaryMsgLength : 0) << " header " << m.uiHeaderLength << " id " << m.usMessageId << " crc " << m.uiMessageCrc << " sibling " << static_cast<int>(m.ucSiblingId) << " name " << m.messageName;
    return o.str();
}
//! What the metadata says about bytes that are not a message.
static std::string UnknownMeta(const MetaDataStruct& m) { return "format " + std::to_string(static_cast<int>(m.eFormat)) + " length " + std::to_string(m.uiLength); }
static std::string InterText(const IntermediateHeader& h)
{
    std::ostringstream o;
    o << "id " << h.usMessageId << " type " << static_cast<int>(h.ucMessageType) << " port " << h.uiPortAddress << " length " << h.usLength << " seq " << h.usSequence << " idle " << static_cast<int>(h.ucIdleTime) << " status " << h.uiTimeStatus << " time " << h.usWeek << ":" << h.dMilliseconds << " rx " << h.uiReceiverStatus << " def " << h.uiMessageDefinitionCrc << " sw " << h.usReceiverSwVersion;
    return o.str();
}
static std::string Text(const Out& o)
{
    std::string s = "status " + std::to_string(static_cast<int>(o.st));
    if (o.st == STATUS::BUFFER_EMPTY || o.st == STATUS::STREAM_EMPTY) { return s; }
    s += " {" + MetaText(o.md) + "} message " + vt::Esc(o.msg, 700) + " header " + std::to_string(o.header.size()) + " body " + std::to_string(o.body.size());
    if (o.inter && o.st == STATUS::SUCCESS) { s += " {" + InterText(o.h) + "} " + vt::Esc(o.fields, 500); }
    return s;
}
static std::string Str(const unsigned char* p, uint32_t n) { return p == nullptr ? std::string() : std::string(reinterpret_cast<const char*>(p), n); }
static void Take(Out& o, const MessageDataStruct& d)
{
    o.msg = Str(d.pucMessage, d.uiMessageLength);
    o.header = Str(d.pucMessageHeader, d.uiMessageHeaderLength);
    o.body = Str(d.pucMessageBody, d.uiMessageBodyLength);
}

struct Cfg
{
    bool unknown = true, ignoreAbb = true;
    ENCODE_FORMAT enc = ENCODE_FORMAT::ASCII;
    oem::Filter::Ptr filter;
};
template <typename P> void Apply(P& p, const Cfg& c)
{
    p.SetReturnUnknownBytes(c.unknown);
    p.SetEncodeFormat(c.enc);
    p.SetFilter(c.filter);
}

//! The components, run by hand.
struct Hand
{
    oem::Framer fr;
    oem::HeaderDecoder hd;
    oem::MessageDecoder dec;
    oem::Encoder enc;
    oem::RxConfigHandler rx;
    MetaDataStruct md;
    Cfg c;
    std::vector<std::string>* accepted = nullptr; // frames that came through

    explicit Hand(const MessageDatabase::Ptr& p) : hd(p), dec(p), enc(p), rx(p) {}
    void Encode1(const IntermediateHeader& h, const CompositeField& b, HEADER_FORMAT hf, ENCODE_FORMAT ef, Out& o)
    {
        std::vector<unsigned char> buf(kBuf, 0xEE);
        unsigned char* p = buf.data();
        MessageDataStruct d;
        bool isRx = h.usMessageId == kRx || h.usMessageId == kRxUser;
        o.st = isRx ? rx.Encode(&p, kBuf, h, b, d, ef) : enc.Encode(&p, kBuf, h, b, d, hf, ef);
        if (o.st == STATUS::SUCCESS) { Take(o, d); }
    }
    //! `last`: no more bytes will come. `inter`: stop before encoding.
    Out Next(bool last, bool inter)
    {
        for (;;)
        {
            Out o;
            o.inter = inter;
            std::vector<unsigned char> buf(kBuf, 0xEE);
            STATUS st = fr.GetFrame(buf.data(), kBuf, md);
            if (last && st == STATUS::INCOMPLETE && (md.eFormat == HEADER_FORMAT::ABB_ASCII || md.eFormat == HEADER_FORMAT::SHORT_ABB_ASCII))
            {
                uint32_t n = fr.Flush(buf.data(), kBuf);
                if (n > 0) { st = STATUS::SUCCESS; md.uiLength = n; }
            }
            if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) { o.st = STATUS::BUFFER_EMPTY; return o; }
            VT_CHECK(st == STATUS::UNKNOWN || st == STATUS::SUCCESS, "framer-status", "framer returned " << static_cast<int>(st));
            std::string raw = Str(buf.data(), md.uiLength);
            auto unknown = [&] { o.st = STATUS::UNKNOWN; o.msg = raw; o.md = md; };
            if (st == STATUS::UNKNOWN)
            {
                if (!c.unknown) { continue; }
                unknown();
                return o;
            }
            if (md.bResponse && md.eFormat == HEADER_FORMAT::ABB_ASCII && c.ignoreAbb) { vt::Count("abbreviated_response_ignored"); continue; }
            std::unique_ptr<unsigned char[]> frame(new unsigned char[raw.size() + 1]); // the frame and nothing else
            memcpy(frame.get(), raw.data(), raw.size());
            frame[raw.size()] = 0;
            if (hd.Decode(frame.get(), o.h, md) != STATUS::SUCCESS)
            {
                vt::Count("header_refused");
                if (!c.unknown) { continue; }
                unknown();
                return o;
            }
            if (c.filter && !c.filter->DoFiltering(md)) { vt::Count("filtered"); continue; }
            CompositeField b;
            const unsigned char* at = frame.get() + md.uiHeaderLength;
            st = o.h.usMessageId == kRx || o.h.usMessageId == kRxUser ? rx.Decode(at, b, md) : dec.Decode(at, b, md);
            o.md = md;
            o.header = raw.substr(0, md.uiHeaderLength);
            o.body = raw.substr(md.uiHeaderLength);
            o.msg = raw;
            if (st == STATUS::NO_DEFINITION) { o.st = st; return o; }
            if (st != STATUS::SUCCESS)
            {
                vt::Count("body_refused");
                if (!c.unknown) { continue; }
                unknown();
                o.header.clear();
                o.body.clear();
                return o;
            }
            if (inter)
            {
                o.st = st;
                o.fields = Dump(o.h, b, md.eFormat);
                if (accepted) { accepted->push_back(raw); }
                return o;
            }
            Encode1(o.h, b, md.eFormat, c.enc, o);
            if (o.st != STATUS::SUCCESS) { vt::Count("encode_refused"); continue; }
            if (accepted) { accepted->push_back(raw); }
            return o;
        }
    }
    std::string Dump(const IntermediateHeader& h, const CompositeField& b, HEADER_FORMAT hf)
    {
        Out o;
        std::string s;
        for (auto f : {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY})
        {
            o.st = STATUS::FAILURE;
            o.msg.clear();
            Encode1(h, b, hf, f, o);
            s += std::to_string(static_cast<int>(o.st)) + (o.st == STATUS::SUCCESS ? o.msg : "") + "|";
        }
        return s;
    }
};
//! One read of the parser (or file parser).
template <typename F> Out ReadOne(F&& call, Hand& h, MetaDataStruct& md, bool inter)
{
    Out o;
    o.inter = inter;
    MessageDataStruct d;
    static const unsigned char kJunk[] = "junk";
    d.pucMessage = d.pucMessageHeader = d.pucMessageBody = const_cast<unsigned char*>(kJunk);
    d.uiMessageLength = d.uiMessageHeaderLength = d.uiMessageBodyLength = 4; // whatever was there before
    CompositeField b;
    o.st = call(d, o.h, b, md);
    o.md = md;
    if (o.st != STATUS::BUFFER_EMPTY && o.st != STATUS::STREAM_EMPTY) { Take(o, d); }
    if (inter && o.st == STATUS::SUCCESS) { o.fields = h.Dump(o.h, b, md.eFormat); }
    return o;
}
template <typename P> Out ReadP(P& p, Hand& h, MetaDataStruct& md, bool inter, bool last)
{
    return ReadOne([&](MessageDataStruct& d, IntermediateHeader& ih, CompositeField& b, MetaDataStruct& m) { return inter ? p.ReadIntermediate(d, ih, b, m, last) : p.Read(d, m, last); }, h, md, inter);
}

// ---------------------------------------------------------------- streams
struct Item { std::string raw; const char* kind; };
struct Gen17
{
    Rng& rng;
    Ctx& c;
    oem::MessageDecoder dec;
    oem::Encoder enc;
    m::ValOpt vo;
    Gen17(Rng& r, Ctx& x) : rng(r), c(x), dec(x.p), enc(x.p)
    {
        vo.text = true;
        vo.msgIds = MsgIdValues(x.db);
    }
    const m::MsgM& Msg()
    {
        for (;;)
        {
            const auto& mm = c.db.msgs[rng.Below(c.db.msgs.size())];
            if (mm.id != kRx && mm.id != kRxUser) { return mm; }
        }
    }
    std::string Known(ENCODE_FORMAT f, bool brief, Hdr* out = nullptr)
    {
        const auto& mm = Msg();
        const auto& def = mm.Latest();
        Body b = m::GenBody(rng, def.f, c.db, vo);
        std::string bin = m::BinaryBody(def.f, b);
        Hdr h = GenHdr(rng, c.db, static_cast<uint16_t>(mm.id), def.crc);
        CompositeField body;
        MetaDataStruct md;
        FillMeta(md, h, mm.name, HEADER_FORMAT::BINARY, bin.size());
        VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), body, md) == STATUS::SUCCESS, "decode", "decode of a well-formed body failed");
        HEADER_FORMAT hf = f == ENCODE_FORMAT::BINARY ? (brief ? HEADER_FORMAT::SHORT_BINARY : HEADER_FORMAT::BINARY) : f == ENCODE_FORMAT::ASCII ? (brief ? HEADER_FORMAT::SHORT_ASCII : HEADER_FORMAT::ASCII) : (brief ? HEADER_FORMAT::SHORT_ABB_ASCII : HEADER_FORMAT::ABB_ASCII);
        Enc e = Encode(enc, ToInter(h), body, hf, f, 60000);
        if (e.st != STATUS::SUCCESS) { return ""; }
        if (out) { *out = h; }
        return e.msg;
    }
    //! An RXCONFIG message around a known one.
    std::string RxConfig()
    {
        Hdr h = GenHdr(rng, c.db, rng.Chance(0.5) ? kRx : kRxUser, 0);
        h.resp = false;
        for (int k = 0; k < 5; ++k)
        {
            bool ascii = rng.Chance(0.5);
            std::string in = Known(ascii ? ENCODE_FORMAT::ASCII : ENCODE_FORMAT::BINARY, false);
            if (in.empty() || in.size() > 4000) { continue; }
            if (ascii)
            {
                std::string inner = in.substr(0, in.size() - 10);
                std::string body = inner + raw::Hex8(~raw::Crc32(inner.substr(1, inner.size() - 2)));
                return raw::AsciiWrap('#', AsciiHdr(c.db, h, false).substr(1) + body);
            }
            std::string inner = in.substr(0, in.size() - 4);
            inner += raw::LE(static_cast<uint32_t>(~raw::Crc32(inner)), 4);
            return raw::BinWrap(BinHdr(h, false, inner.size()) + inner);
        }
        return "";
    }
    std::string Quiet(size_t n)
    {
        std::string s;
        for (size_t i = 0; i < n; ++i) { s += rng.PickOf({'a', 'Z', '0', ' ', ',', ';', '\0', '\x7f', '\x01', '.', '\n'}); }
        return s;
    }
    std::vector<Item> Stream(size_t n, bool& noisy)
    {
        std::vector<Item> v;
        raw::Gen g(rng);
        while (v.size() < n)
        {
            Item it{"", ""};
            switch (rng.Below(16))
            {
            case 0: case 1: it = {Known(ENCODE_FORMAT::BINARY, false), "bin"}; break;
            case 2: it = {Known(ENCODE_FORMAT::BINARY, true), "bin_short"}; break;
            case 3: case 4: it = {Known(ENCODE_FORMAT::ASCII, false), "ascii"}; break;
            case 5: it = {Known(ENCODE_FORMAT::ASCII, true), "ascii_short"}; break;
            case 6: it = {Known(ENCODE_FORMAT::ABBREV_ASCII, false), "abb"}; break;
            case 7: it = {Known(ENCODE_FORMAT::ABBREV_ASCII, true), "abb_short"}; break;
            case 8: it = {rng.PickOf<const char*>({"<OK\r\n", "<ERROR:Invalid message\r\n", "<ERROR\r\n"}), "abb_response"}; break;
            case 9: {
                Hdr h = GenHdr(rng, c.db, static_cast<uint16_t>(Msg().id), 0);
                h.resp = true;
                if (rng.Chance(0.5)) { it = {raw::AsciiWrap('#', AsciiHdr(c.db, h, false).substr(1) + rng.PickOf<const char*>({"OK", "Invalid message", "nonsense"})), "ascii_response"}; }
                else
                {
                    std::string b = raw::LE(rng.Below(7), 4) + rng.PickOf<const char*>({"OK", "Invalid message", ""});
                    it = {raw::BinWrap(BinHdr(h, false, b.size()) + b), "bin_response"};
                }
                break;
            }
            case 10: it = {g.Make(rng.PickOf({raw::F::Ascii, raw::F::ShortAscii, raw::F::Bin, raw::F::ShortBin, raw::F::PropBin, raw::F::Nmea}), 400), "other"}; break;
            case 11: case 12: it = {Quiet(1 + rng.Below(rng.Chance(0.1) ? 2000 : 30)), "quiet"}; break;
            case 13: { // a well-framed message of a known id, with a damaged body
                std::string s = Known(rng.Chance(0.5) ? ENCODE_FORMAT::BINARY : ENCODE_FORMAT::ASCII, false);
                if (s.empty()) { break; }
                if (s[0] == '#')
                {
                    s = s.substr(1, s.size() - 12);
                    size_t semi = s.find(';');
                    size_t at = rng.Chance(0.2) ? rng.Below(s.size()) : semi + 1 + rng.Below(s.size() - semi);
                    if (at < s.size() && rng.Chance(0.5)) { s[at] = rng.PickOf({'x', ',', '"', '7', ' '}); }
                    else { s.resize(at); }
                    if (s.empty()) { break; }
                    s = raw::AsciiWrap('#', s);
                }
                else
                {
                    s.resize(s.size() - 4);
                    size_t b = rng.Below(s.size() - 28 + 1);
                    s.resize(28 + b);
                    s[8] = static_cast<char>(b);
                    s[9] = static_cast<char>(b >> 8);
                    s = raw::BinWrap(s);
                }
                it = {s, "damaged"};
                break;
            }
            case 14: it = {RxConfig(), "rxconfig"}; break;
            default:
                if (!noisy) { break; }
                it = {rng.Chance(0.5) ? g.Payload(1 + rng.Below(60)) : Known(ENCODE_FORMAT::ASCII, false), "noise"};
                if (it.raw.size() > 3) { it.raw.resize(1 + rng.Below(it.raw.size())); }
                break;
            }
            if (it.raw.empty() || it.raw.size() > 30000) { continue; }
            v.push_back(it);
        }
        return v;
    }
};
static Cfg GenCfg(Rng& rng, const DbM& db)
{
    Cfg c;
    c.unknown = rng.Chance(0.6);
    c.ignoreAbb = rng.Chance(0.5);
    c.enc = rng.PickOf({ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY, ENCODE_FORMAT::UNSPECIFIED});
    if (rng.Chance(0.35))
    {
        c.filter = std::make_shared<oem::Filter>();
        switch (rng.Below(4))
        {
        case 0: c.filter->IncludeMessageId(db.msgs[rng.Below(db.msgs.size())].id); c.filter->InvertMessageIdFilter(rng.Chance(0.5)); break;
        case 1: c.filter->IncludeResponses(false); break;
        case 2: c.filter->SetIncludeLowerTimeBound(static_cast<uint32_t>(rng.Below(3000)), 0); break;
        default: c.filter->IncludeMessageName(db.msgs[0].name, HEADER_FORMAT::ALL, 0); c.filter->InvertMessageNameFilter(rng.Chance(0.5)); break;
        }
    }
    return c;
}
static std::string Kinds(const std::vector<Item>& v)
{
    std::string s;
    for (auto& i : v) { s += std::string(" ") + i.kind + "(" + std::to_string(i.raw.size()) + ")"; }
    return s;
}
static std::vector<size_t> Cuts(Rng& rng, size_t n)
{
    std::vector<size_t> v;
    size_t scale = rng.PickOf<size_t>({1, 7, 64, 500, 4000, 60000});
    for (size_t at = 0; at < n;)
    {
        size_t k = std::min<size_t>(n - at, 1 + rng.Below(scale == 1 && n > 4000 ? 50 : scale));
        v.push_back(k);
        at += k;
    }
    return v;
}
static void Same(const Out& want, const Out& got, const char* key, const std::string& ctx)
{
    vt::Eval();
    auto cmp = [&](const char* what, bool eq) { VT_CHECK(eq, std::string(key) + "-" + what, what << " differs: got " << Text(got) << " want " << Text(want) << ctx); };
    cmp("status", want.st == got.st);
    if (want.st == STATUS::BUFFER_EMPTY || want.st == STATUS::STREAM_EMPTY) { return; }
    cmp("message", want.msg == got.msg);
    cmp("ranges", want.header == got.header && want.body == got.body);
    cmp("metadata", want.st == STATUS::UNKNOWN ? UnknownMeta(want.md) == UnknownMeta(got.md) : MetaText(want.md) == MetaText(got.md));
    if (want.inter && want.st == STATUS::SUCCESS)
    {
        cmp("header", InterText(want.h) == InterText(got.h));
        cmp("fields", want.fields == got.fields);
    }
    vt::Count(std::string("out.") + std::to_string(static_cast<int>(want.st)));
}

VT_SUITE(chunks)
{
    auto c = RxCtx(rng);
    Gen17 g(rng, *c);
    bool noisy = rng.Chance(0.4);
    auto items = g.Stream(1 + rng.Below(25), noisy);
    std::string all;
    for (auto& i : items) { all += i.raw; vt::Count(std::string("item.") + i.kind); }
    vt::Distinct(vt::HashStr(all));
    oem::Parser p(c->p);
    Hand h(c->p), probe(c->p);
    h.c = GenCfg(rng, c->db);
    bool inter = rng.Chance(0.4), fresh = rng.Chance(0.3), changing = rng.Chance(0.3);
    auto set = [&] { Apply(p, h.c); p.SetIgnoreAbbreviatedAsciiResponses(h.c.ignoreAbb); };
    set();
    auto cuts = Cuts(rng, all.size());
    std::string ctx = " stream" + Kinds(items) + " chunks " + std::to_string(cuts.size()) + " first " + std::to_string(cuts[0]) + " unknown " + std::to_string(h.c.unknown) + " format " + std::to_string(static_cast<int>(h.c.enc)) + " fresh " + std::to_string(fresh);
    MetaDataStruct md;
    size_t at = 0;
    auto both = [&](bool last) {
        if (fresh) { md = h.md = MetaDataStruct(); }
        Out w = h.Next(last, inter);
        Out o = ReadP(p, probe, md, inter, last);
        Same(w, o, "read", ctx);
        VT_CHECK(p.GetMessageCounts() == h.hd.GetMessageCounts(), "counts", "message counts differ" << ctx);
        return w.st;
    };
    for (size_t k : cuts)
    {
        size_t a = p.Write(reinterpret_cast<const unsigned char*>(all.data() + at), k), b = h.fr.Write(reinterpret_cast<const unsigned char*>(all.data() + at), k);
        VT_CHECK(a == b && a == k && p.GetAvailableSpace() == h.fr.GetAvailableSpace(), "write", "parser took " << a << " of " << k << " bytes, framer " << b << ctx);
        at += k;
        bool partial = rng.Chance(0.1) && p.GetAvailableSpace() > 40000;
        for (int n = partial ? static_cast<int>(rng.Below(3)) : 1000000; n > 0 && both(false) != STATUS::BUFFER_EMPTY; --n) {}
        if (changing && rng.Chance(0.3)) { h.c = GenCfg(rng, c->db); set(); }
        if (rng.Chance(0.005)) { p.ResetMessageCounts(); h.hd.ResetMessageCounts(); }
    }
    while (both(false) != STATUS::BUFFER_EMPTY) {}
    bool last = rng.Chance(0.7);
    if (last) { while (both(true) != STATUS::BUFFER_EMPTY) {} }
    std::string x(kBuf, 0), y(kBuf, 0);
    uint32_t n = p.Flush(reinterpret_cast<unsigned char*>(x.data()), kBuf), k = h.fr.Flush(reinterpret_cast<unsigned char*>(y.data()), kBuf);
    VT_CHECK(n == k && x == y, "flush", "parser flushed " << n << " bytes, framer " << k << ctx);
    // and after that it is as new
    auto again = g.Stream(1 + rng.Below(5), noisy);
    std::string s;
    for (auto& i : again) { s += i.raw; }
    if (s.size() > 100000) { return; }
    Hand h2(c->p);
    h2.c = h.c;
    h2.c.filter = nullptr;
    p.SetFilter(nullptr);
    p.ResetMessageCounts();
    (void)p.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    (void)h2.fr.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    STATUS st;
    md = MetaDataStruct(); // how unknown bytes are split depends on the format of the message before them
    do {
        Out w = h2.Next(true, inter);
        Same(w, ReadP(p, probe, md, inter, true), "after-flush", ctx + " then" + Kinds(again));
        st = w.st;
    } while (st != STATUS::BUFFER_EMPTY);
    VT_CHECK(p.GetMessageCounts() == h2.hd.GetMessageCounts(), "counts", "message counts differ" << ctx);
    vt::Sample(ctx);
}
//! Files: every message of the stream, then the end, every pass the same.
VT_SUITE(file)
{
    auto c = RxCtx(rng);
    Gen17 g(rng, *c);
    bool noisy = rng.Chance(0.4), quiet = !noisy;
    auto items = g.Stream(1 + rng.Below(rng.Chance(0.1) ? 200 : 25), noisy);
    if (rng.Chance(0.2)) { auto it = g.Known(ENCODE_FORMAT::ABBREV_ASCII, rng.Chance(0.5)); if (!it.empty()) { items.push_back({it, "abb"}); } }
    std::string all;
    for (auto& i : items) { all += i.raw; vt::Count(std::string("item.") + i.kind); }
    vt::Distinct(vt::HashStr(all));
    Hand probe(c->p);
    Cfg cfg = GenCfg(rng, c->db);
    cfg.ignoreAbb = true; // the file parser has no option for it
    bool inter = rng.Chance(0.4);
    std::string ctx = " file" + Kinds(items) + " unknown " + std::to_string(cfg.unknown) + " format " + std::to_string(static_cast<int>(cfg.enc));
    oem::FileParser f(c->p);
    Apply(f, cfg);
    VT_CHECK(!f.SetStream(nullptr), "null-stream", "a null stream was accepted");
    if (rng.Chance(0.3)) // no stream yet: nothing to read
    {
        MessageDataStruct d;
        MetaDataStruct md;
        VT_CHECK(f.Read(d, md) == STATUS::STREAM_EMPTY, "no-stream", "read without a stream");
    }
    MetaDataStruct md;
    int passes = 1 + static_cast<int>(rng.Below(3));
    for (int pass = 0; pass < passes; ++pass)
    {
        bool fresh = rng.Chance(0.3);
        f.ResetMessageCounts();
        md = MetaDataStruct();
        if (pass == 0 || rng.Chance(0.4)) { VT_CHECK(f.SetStream(std::make_shared<std::istringstream>(all)), "set-stream", "stream refused"); }
        else { VT_CHECK(f.Reset(), "reset", "reset refused"); }
        // by hand, the same bytes in chunks of our own
        Hand h(c->p);
        h.c = cfg;
        std::vector<std::string> accepted;
        h.accepted = &accepted;
        std::vector<Out> want;
        size_t at = 0;
        for (;;)
        {
            Out o = h.Next(false, inter);
            if (o.st != STATUS::BUFFER_EMPTY)
            {
                want.push_back(o);
                if (fresh) { h.md = MetaDataStruct(); }
                continue;
            }
            if (at < all.size())
            {
                size_t k = std::min<size_t>({all.size() - at, MAX_ASCII_MESSAGE_LENGTH, h.fr.GetAvailableSpace()});
                VT_CHECK(k > 0, "stuck", "no space left and nothing framed" << ctx);
                at += h.fr.Write(reinterpret_cast<const unsigned char*>(all.data() + at), k);
                continue;
            }
            while ((o = h.Next(true, inter)).st != STATUS::BUFFER_EMPTY) { want.push_back(o); if (fresh) { h.md = MetaDataStruct(); } }
            break;
        }
        size_t stop = rng.Chance(0.3) ? rng.Below(want.size() + 1) : want.size() + 2;
        for (size_t k = 0; k < stop; ++k)
        {
            Out end;
            end.st = STATUS::STREAM_EMPTY;
            end.inter = inter;
            if (fresh) { md = MetaDataStruct(); }
            Out got = ReadOne([&](MessageDataStruct& d, IntermediateHeader& ih, CompositeField& b, MetaDataStruct& m) { return inter ? f.ReadIntermediate(d, ih, b, m) : f.Read(d, m); }, probe, md, inter);
            Same(k < want.size() ? want[k] : end, got, "file", ctx + " pass " + std::to_string(pass) + " read " + std::to_string(k) + " of " + std::to_string(want.size()));
            if (k == want.size()) { VT_CHECK(f.GetMessageCounts() == h.hd.GetMessageCounts(), "counts", "message counts differ" << ctx); }
        }
        // independently: every well-formed message of the generator's list, in order
        if (quiet && !cfg.filter && inter)
        {
            size_t k = 0;
            for (auto& i : items)
            {
                std::string kind = i.kind;
                if (kind != "bin" && kind != "bin_short" && kind != "ascii" && kind != "ascii_short" && kind != "rxconfig" && kind != "abb" && kind != "abb_short") { continue; }
                while (k < accepted.size() && accepted[k] != i.raw) { ++k; }
                // an abbreviated message's end depends on what follows; a lone %k could be a definition of an unknown message
                if (k == accepted.size() && (kind == "abb" || kind == "abb_short" || kind == "rxconfig")) { k = 0; break; }
                VT_CHECK(k < accepted.size(), "lost", kind << " message not delivered: " << vt::Esc(i.raw) << ctx);
                vt::Count("listed");
            }
        }
    }
    vt::Sample(ctx);
}
//! Messages near the largest size, and beyond it: whatever becomes of them, the parser goes on to the next message.
VT_SUITE(large)
{
    auto c = RxCtx(rng);
    Gen17 g(rng, *c);
    raw::Gen rg(rng);
    size_t n = 32768 - 60 + rng.Below(120);
    std::string big;
    switch (rng.Below(4))
    {
    case 0: { std::string in = "BESTPOSA," + rg.Text(n > 12 ? n - 12 - 9 : 0, "*"); big = raw::AsciiWrap(rng.PickOf({'#', '%'}), in); break; }
    case 1: {
        size_t b = n - 32;
        big = raw::BinWrap(raw::BinHeader(0x44, 4242, 0, 32, static_cast<uint16_t>(b), 0, 0, 180, 2000, 1, 0, 0, 0) + rng.Bytes(b));
        break;
    }
    case 2: {
        big = "<BESTPOS COM1 0 50.0 FINESTEERING 2000 1.000 00000000 0000 0\r\n";
        while (big.size() < n - 60) { big += "< " + rg.Text(20 + rng.Below(30)) + "\r\n"; }
        big += "< " + rg.Text(n - big.size() - 4) + "\r\n";
        break;
    }
    default: big = "<" + rg.Ident(5) + " " + rg.Text(n - 9) + "\r\n"; break;
    }
    std::string next;
    while (next.empty()) { next = g.Known(ENCODE_FORMAT::BINARY, false); }
    std::string all = (rng.Chance(0.5) ? g.Quiet(rng.Below(20)) : "") + big + next + "\n\n";
    vt::Distinct(vt::HashStr(all));
    vt::Count(big.size() > 32768 ? "over" : "within");
    Hand probe(c->p);
    oem::Parser p(c->p);
    p.SetIgnoreAbbreviatedAsciiResponses(false); // nothing is left out
    auto cuts = Cuts(rng, all.size());
    MetaDataStruct md;
    size_t at = 0, got = 0, reads = 0;
    bool found = false;
    for (size_t k : cuts)
    {
        (void)p.Write(reinterpret_cast<const unsigned char*>(all.data() + at), k);
        at += k;
        for (;;)
        {
            Out o = ReadP(p, probe, md, true, at == all.size());
            if (o.st == STATUS::BUFFER_EMPTY) { break; }
            got += o.msg.size();
            found |= o.st == STATUS::SUCCESS && o.msg == next;
            VT_CHECK(++reads < 100000, "endless", "reads go on without end");
        }
    }
    VT_CHECK(found, "next-lost", "the message after a message of " << big.size() << " bytes was not delivered: " << vt::Esc(big, 80));
    std::string rest(kBuf, 0); // what could still become a message
    got += p.Flush(reinterpret_cast<unsigned char*>(rest.data()), kBuf);
    VT_CHECK(got == all.size(), "bytes", got << " of " << all.size() << " bytes delivered or kept");
    vt::Eval();
}
