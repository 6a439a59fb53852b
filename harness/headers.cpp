// C08-C10: identifiers, header decoding and message counters.
#include "codec.hpp"
#include <novatel_edie/decoders/common/message_counts_tracker.hpp>
VT_MAIN()
using namespace cx;
using raw::F;

// ---------------------------------------------------------------- C08
// Every (id, sibling, format, response): 64 ids per case, 1024 cases cover all of them.
VT_SUITE(pack)
{
    (void)rng;
    uint32_t base = static_cast<uint32_t>(vt::S().caseId % 1024) * 64;
    for (uint32_t id = base; id < base + 64; ++id)
    {
        for (uint32_t sib = 0; sib < 32; ++sib)
        {
            for (uint32_t fmt = 0; fmt < 4; ++fmt)
            {
                for (uint32_t resp = 0; resp < 2; ++resp)
                {
                    uint32_t v = CreateMsgId(id, sib, fmt, resp);
                    uint32_t want = id | sib << 16 | fmt << 21 | resp << 23;
                    uint16_t i2 = 0xFFFF;
                    uint32_t s2 = 77, f2 = 77, r2 = 77;
                    UnpackMsgId(v, i2, s2, f2, r2);
                    if (v != want || i2 != id || s2 != sib || f2 != fmt || r2 != resp)
                    {
                        vt::Fail("msgid", m::Fmt("id %u sibling %u format %u response %u packs to %08x (documented layout %08x), unpacks to %u %u %u %u", id, sib, fmt, resp, v, want, i2, s2, f2, r2));
                    }
                }
            }
        }
        vt::Distinct(id);
    }
    vt::Eval(64 * 256);
    for (uint32_t sib = 0; sib < 32; ++sib)
    {
        for (uint32_t fmt = 0; fmt < 4; ++fmt)
        {
            for (uint32_t resp = 0; resp < 2; ++resp)
            {
                uint32_t v = PackMsgType(sib, fmt, resp), want = sib | fmt << 5 | resp << 7;
                VT_CHECK(v == want, "msgtype", "sibling " << sib << " format " << fmt << " response " << resp << " packs to " << v << " want " << want);
            }
        }
    }
}

//! The conversions as documented: NAME[R|A|B][_sibling], an exact database name meaning no suffix.
static uint32_t ModelNameToId(const DbM& db, std::string n)
{
    uint32_t sib = 0, fmt = 2, resp = 0;
    size_t u = n.rfind('_');
    if (u != std::string::npos && u + 1 < n.size() && n.size() - u <= 3 && n.find_first_not_of("0123456789", u + 1) == std::string::npos)
    {
        uint32_t s = static_cast<uint32_t>(atoi(n.c_str() + u + 1));
        if (s < 32) { sib = s; n.resize(u); }
    }
    auto find = [&](const std::string& x) -> const m::MsgM* {
        for (auto& mm : db.msgs) { if (mm.name == x) { return &mm; } }
        return nullptr;
    };
    const m::MsgM* mm = find(n);
    if (!mm && !n.empty())
    {
        char c = n.back();
        if (c == 'R' || c == 'A' || c == 'B')
        {
            n.pop_back();
            resp = c == 'R';
            fmt = c == 'B' ? 0 : 1;
        }
        mm = find(n);
    }
    return mm ? static_cast<uint32_t>(mm->id) | sib << 16 | fmt << 21 | resp << 23 : 0;
}
VT_SUITE(names)
{
    m::GenOpt o;
    o.maxFields = 1;
    auto c = MakeCtx(rng, o, static_cast<int>(rng.Range(1, 6)));
    for (auto& mm : c->db.msgs)
    {
        for (int k = 0; k < 40; ++k)
        {
            uint32_t sib = rng.Chance(0.3) ? 0 : static_cast<uint32_t>(rng.Below(32));
            int form = static_cast<int>(rng.Below(4)); // abbreviated, B, A, R
            std::string s = mm.name;
            uint32_t fmt = 2, resp = 0;
            if (form == 1) { s += "B"; fmt = 0; }
            if (form == 2) { s += "A"; fmt = 1; }
            if (form == 3) { s += "R"; fmt = 1; resp = 1; }
            if (sib) { s += "_" + std::to_string(sib); }
            uint32_t want = static_cast<uint32_t>(mm.id) | sib << 16 | fmt << 21 | resp << 23;
            bool clash = ModelNameToId(c->db, s) != want; // another message is called like this one with a suffix
            vt::Eval();
            vt::Distinct(vt::HashStr(s));
            if (!clash)
            {
                uint32_t got = c->p->MsgNameToMsgId(s);
                VT_CHECK(got == want, "name-to-id", s << " gives " << m::Fmt("%08x want %08x", got, want) << " (message " << mm.name << " id " << mm.id << ")");
                vt::Count("name");
            }
            else { vt::Count("ambiguous"); }
            std::string n = c->p->MsgIdToMsgName(want);
            VT_CHECK(n == s, "id-to-name", m::Fmt("%08x", want) << " gives " << n << " want " << s);
            // other encodings of a response all carry the R suffix
            uint32_t alt = static_cast<uint32_t>(mm.id) | sib << 16 | static_cast<uint32_t>(rng.Below(4)) << 21 | 1U << 23;
            std::string w = mm.name + "R" + (sib ? "_" + std::to_string(sib) : "");
            VT_CHECK(c->p->MsgIdToMsgName(alt) == w, "response-name", m::Fmt("%08x", alt) << " gives " << c->p->MsgIdToMsgName(alt) << " want " << w);
        }
    }
    // unknown and hostile ones
    for (int k = 0; k < 60; ++k)
    {
        std::string s;
        switch (rng.Below(7))
        {
        case 0: s = rng.PickOf({"", "_", "A", "B", "R", "__", "_1", "A_1", "1", "_A", "R_", "_31", "_32"}); break;
        case 1: s = rng.Bytes(rng.Below(12)); break;
        case 2: s = c->db.msgs[rng.Below(c->db.msgs.size())].name; s.insert(rng.Below(s.size() + 1), 1, static_cast<char>(rng.Range(32, 126))); break;
        case 3: s = c->db.msgs[0].name; s.erase(rng.Below(s.size()), 1); break;
        case 4: s = c->db.msgs[0].name + "A_" + std::string(rng.Size(40), static_cast<char>('0' + rng.Below(10))); break;
        case 5: s = c->db.msgs[0].name + rng.PickOf({"AA", "RA", "AR", "C", "a", "_A", "A_", "_", "A_-1", "A_+1", "A_1x", "_1A"}); break;
        default: s = std::string(rng.Size(3000), 'A'); break;
        }
        std::unique_ptr<char[]> buf(new char[s.size()]); // heap-exact source
        memcpy(buf.get(), s.data(), s.size());
        uint32_t got = c->p->MsgNameToMsgId(std::string(buf.get(), s.size()));
        // Padded or over-long sibling numbers ("_007") are not specified.
        size_t u = s.rfind('_');
        bool odd = u != std::string::npos && s.size() - u > 1 && (s[u + 1] == '0' || s.size() - u > 3) && s.find_first_not_of("0123456789", u + 1) == std::string::npos;
        if (!odd)
        {
            uint32_t want = ModelNameToId(c->db, s);
            VT_CHECK(got == want, "hostile-name", "\"" << vt::Esc(s) << "\" gives " << m::Fmt("%08x want %08x", got, want));
            vt::Count(want ? "mutated-known" : "unknown");
        }
        vt::Eval();
        uint32_t v = static_cast<uint32_t>(rng.Next()) & 0xFFFFFF;
        if (c->db.Msg(v & 0xFFFF)) { continue; }
        std::string n = c->p->MsgIdToMsgName(v), w = c->nm(v);
        VT_CHECK(n == w, "unknown-id", m::Fmt("%08x", v) << " gives " << n << " want " << w);
        VT_CHECK(c->p->GetMsgDef(static_cast<int32_t>(v & 0xFFFF)) == nullptr, "unknown-def", "a definition for the unknown id " << (v & 0xFFFF));
    }
    vt::Sample(c->db.msgs[0].name + " " + std::to_string(c->db.msgs[0].id));
}

// ---------------------------------------------------------------- C09
static const HEADER_FORMAT kHdr[] = {HEADER_FORMAT::BINARY, HEADER_FORMAT::SHORT_BINARY, HEADER_FORMAT::ASCII, HEADER_FORMAT::SHORT_ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::SHORT_ABB_ASCII, HEADER_FORMAT::JSON};
static const char* HdrN(HEADER_FORMAT f)
{
    switch (f)
    {
    case HEADER_FORMAT::BINARY: return "binary";
    case HEADER_FORMAT::SHORT_BINARY: return "short_binary";
    case HEADER_FORMAT::ASCII: return "ascii";
    case HEADER_FORMAT::SHORT_ASCII: return "short_ascii";
    case HEADER_FORMAT::ABB_ASCII: return "abb";
    case HEADER_FORMAT::SHORT_ABB_ASCII: return "short_abb";
    default: return "json";
    }
}
static bool Brief(HEADER_FORMAT f) { return f == HEADER_FORMAT::SHORT_BINARY || f == HEADER_FORMAT::SHORT_ASCII || f == HEADER_FORMAT::SHORT_ABB_ASCII; }
//! The message a sender makes of a header (the body is irrelevant), and the header's length.
static std::string MakeMsg(Rng& rng, const DbM& db, const Hdr& h, HEADER_FORMAT f, size_t& hlen, bool briefJson)
{
    std::string hd;
    switch (f)
    {
    case HEADER_FORMAT::BINARY: case HEADER_FORMAT::SHORT_BINARY: {
        std::string body = rng.Bytes(rng.Below(12));
        hd = BinHdr(h, Brief(f), body.size());
        hlen = hd.size();
        return raw::BinWrap(hd + body);
    }
    case HEADER_FORMAT::ASCII: case HEADER_FORMAT::SHORT_ASCII: hd = AsciiHdr(db, h, Brief(f)); hlen = hd.size(); return raw::AsciiWrap(hd[0], hd.substr(1) + rng.PickOf({"", "1,2", "a b,\"x;y\""}));
    case HEADER_FORMAT::ABB_ASCII: case HEADER_FORMAT::SHORT_ABB_ASCII: hd = AbbHdr(db, h, Brief(f)); hlen = hd.size(); return hd + rng.PickOf({"<     1 2\r\n", ""});
    default: {
        nlohmann::ordered_json j;
        j["message"] = HdrName(db, h) + Sib(h);
        j["id"] = h.id;
        if (!briefJson)
        {
            j["port"] = EnumName(db, "PortAddress", h.port);
            j["sequence_num"] = h.seq;
            j["percent_idle_time"] = h.idle * 0.5;
            j["time_status"] = EnumName(db, "GPSTimeStatus", h.ts);
        }
        j["week"] = h.week;
        nlohmann::ordered_json d;
        d["header"] = j;
        std::string s = d.dump();
        s.resize(s.size() - 2);
        s += ",\"seconds\": " + Secs(h.ms);
        if (!briefJson) { s += ",\"receiver_status\": " + std::to_string(h.rx) + ",\"HEADER_reserved1\": " + std::to_string(h.defcrc) + ",\"receiver_sw_version\": " + std::to_string(h.sw); }
        hlen = 0;
        return s + "},\"body\":{}}";
    }
    }
}
VT_SUITE(header)
{
    m::GenOpt o;
    o.maxFields = 1;
    auto c = MakeCtx(rng, o, 4);
    oem::HeaderDecoder hd(c->p);
    oem::IntermediateHeader ih;
    oem::MetaDataStruct md;
    for (int k = 0; k < 60; ++k)
    {
        if (rng.Chance(0.4)) { ih = oem::IntermediateHeader(); md = oem::MetaDataStruct(); } // else: reused like a user's loop does
        HEADER_FORMAT f = kHdr[rng.Below(7)];
        bool known = rng.Chance(0.85);
        const auto& mm = c->db.msgs[rng.Below(c->db.msgs.size())];
        Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(known ? mm.id : 0), rng.Chance(0.5) ? mm.latest : static_cast<uint32_t>(rng.Next()));
        if (!known) { do { h.id = static_cast<uint16_t>(rng.Range(1, 65535)); } while (c->db.Msg(h.id)); }
        if (f == HEADER_FORMAT::SHORT_BINARY) { h.sib = 0; h.resp = false; }
        if (f == HEADER_FORMAT::ABB_ASCII || f == HEADER_FORMAT::SHORT_ABB_ASCII || f == HEADER_FORMAT::JSON) { h.resp = false; }
        if (ModelNameToId(c->db, HdrName(c->db, h) + (h.resp ? "R" : "A")) == 0 && known) { continue; }
        size_t hlen = 0;
        bool briefJson = rng.Chance(0.3);
        std::string msg = MakeMsg(rng, c->db, h, f, hlen, briefJson);
        bool nul = f == HEADER_FORMAT::JSON || rng.Chance(0.2);
        std::unique_ptr<unsigned char[]> buf(new unsigned char[msg.size() + nul]);
        memcpy(buf.get(), msg.data(), msg.size());
        if (nul) { buf[msg.size()] = 0; }
        STATUS st = hd.Decode(buf.get(), ih, md);
        std::string ctx = std::string(" for ") + HdrN(f) + " header " + (f == HEADER_FORMAT::BINARY || f == HEADER_FORMAT::SHORT_BINARY ? vt::Hex(msg) : vt::Esc(msg));
        VT_CHECK(st == STATUS::SUCCESS, "status", "status " << static_cast<int>(st) << ctx);
        vt::Eval();
        vt::Distinct(vt::HashStr(msg));
        vt::Count(std::string(HdrN(f)) + (known ? "" : ".unknown"));
        bool text = f != HEADER_FORMAT::BINARY && f != HEADER_FORMAT::SHORT_BINARY && f != HEADER_FORMAT::JSON;
        bool brief = Brief(f) || (f == HEADER_FORMAT::JSON && briefJson);
        uint32_t id = known || !text ? h.id : 0;
        auto eq = [&](const char* what, auto got, auto want) { VT_CHECK(got == want, what, what << " " << +got << " want " << +want << ctx); };
        bool namedUnknown = !known && (text || f == HEADER_FORMAT::JSON); // the name says nothing then
        eq("id", ih.usMessageId, id);
        eq("week", ih.usWeek, h.week);
        eq("milliseconds", ih.dMilliseconds, static_cast<double>(h.ms));
        if (!namedUnknown)
        {
            eq("sibling", ih.ucMessageType & 31U, static_cast<unsigned>(h.sib));
            eq("response", ih.ucMessageType >> 7, static_cast<int>(h.resp));
            eq("meta-sibling", md.ucSiblingId, h.sib);
            eq("meta-response", md.bResponse, h.resp);
        }
        if (!brief)
        {
            eq("port", ih.uiPortAddress, f == HEADER_FORMAT::BINARY ? h.port & 0xFF : h.port);
            eq("sequence", ih.usSequence, h.seq);
            eq("idle", ih.ucIdleTime, h.idle);
            eq("time-status", ih.uiTimeStatus, h.ts);
            eq("receiver-status", ih.uiReceiverStatus, h.rx);
            eq("definition-crc", ih.uiMessageDefinitionCrc, f == HEADER_FORMAT::BINARY ? h.defcrc & 0xFFFF : h.defcrc);
            eq("sw-version", ih.usReceiverSwVersion, h.sw);
            eq("meta-crc", md.uiMessageCrc, ih.uiMessageDefinitionCrc);
        }
        else { eq("time-status", ih.uiTimeStatus, static_cast<uint32_t>(TIME_STATUS::UNKNOWN)); }
        eq("meta-time-status", static_cast<uint32_t>(md.eTimeStatus), ih.uiTimeStatus);
        if (!text && f != HEADER_FORMAT::JSON)
        {
            size_t body = msg.size() - hlen - 4;
            eq("length", ih.usLength, body);
            eq("meta-binary-length", md.uiBinaryMsgLength, body);
        }
        eq("format", static_cast<int>(md.eFormat), static_cast<int>(f));
        eq("meta-id", md.usMessageId, id);
        eq("meta-week", md.usWeek, h.week);
        eq("meta-milliseconds", md.dMilliseconds, static_cast<double>(h.ms));
        eq("header-length", md.uiHeaderLength, hlen);
        std::string name = known ? mm.name : "UNKNOWN";
        VT_CHECK(md.messageName == name, "meta-name", md.messageName << " want " << name << ctx);
        if (k < 2) { vt::Sample(vt::Esc(msg)); }
    }
}
// Headers lacking a field, with a field of the wrong kind, cut short or of no known format.
VT_SUITE(header_bad)
{
    m::GenOpt o;
    o.maxFields = 1;
    auto c = MakeCtx(rng, o, 2);
    oem::HeaderDecoder hd(c->p);
    oem::IntermediateHeader ih;
    oem::MetaDataStruct md;
    for (int k = 0; k < 60; ++k)
    {
        HEADER_FORMAT f = kHdr[2 + rng.Below(4)];
        bool abb = f == HEADER_FORMAT::ABB_ASCII || f == HEADER_FORMAT::SHORT_ABB_ASCII;
        const auto& mm = c->db.msgs[rng.Below(c->db.msgs.size())];
        Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(mm.id), mm.latest);
        if (abb) { h.resp = false; }
        std::string s = abb ? AbbHdr(c->db, h, Brief(f)) : AsciiHdr(c->db, h, Brief(f));
        s.resize(s.size() - (abb ? 2 : 1));
        std::vector<std::string> t(1);
        for (size_t i = 1; i < s.size(); ++i) { if (s[i] == (abb ? ' ' : ',')) { t.emplace_back(); } else { t.back() += s[i]; } }
        size_t at = rng.Below(t.size());
        // kinds per position: name, port alpha; seq, idle, week, seconds, version number; status alpha; rx, crc hex
        static const char* kFull = "aannannxxn";
        static const char* kShort = "ann";
        char kind = (Brief(f) ? kShort : kFull)[at];
        std::string what;
        const std::string was = t[at];
        switch (rng.Below(5))
        {
        case 0: t.erase(t.begin() + static_cast<long>(at)); what = "field " + std::to_string(at) + " missing"; break;
        case 1: t[at].clear(); what = "field " + std::to_string(at) + " empty"; break;
        case 2:
            t[at] = kind == 'a' ? rng.PickOf({"17", "-", "_X", "0x1F", " "}) : kind == 'n' ? rng.PickOf({"x1", "-1", "abc", "+4", " 1", "\"1\"", "1x", "7-"}) : rng.PickOf({"g0", "-1", "xyz", "zz", "12g4"});
            what = "field " + std::to_string(at) + " is '" + t[at] + "'";
            break;
        case 3:
            if (kind == 'a') { continue; }
            t[at] = kind == 'x' ? "123456789abcdef" : "99999999"; // beyond the field's range
            what = "field " + std::to_string(at) + " is " + t[at];
            break;
        default: t.resize(at); what = "cut after " + std::to_string(at) + " fields"; break;
        }
        // A full abbreviated header without its port could only be told from a short one by what follows.
        std::string msg(1, s[0]);
        for (size_t i = 0; i < t.size(); ++i) { msg += (i ? (abb ? " " : ",") : "") + t[i]; }
        if (rng.Chance(0.8)) { msg += abb ? "\r\n" : ";1,2"; }
        else { what += ", end missing"; }
        if (!abb) { msg = raw::AsciiWrap(msg[0], msg.substr(1)); }
        else if (msg.find("\r\n") == std::string::npos || rng.Chance(0.5)) { msg += rng.PickOf({"<     1 2\r\n", "\r\n"}); }
        std::unique_ptr<unsigned char[]> buf(new unsigned char[msg.size()]);
        memcpy(buf.get(), msg.data(), msg.size());
        STATUS st = hd.Decode(buf.get(), ih, md);
        vt::Eval();
        vt::Distinct(vt::HashStr(msg));
        vt::Count(std::string(HdrN(f)) + ".bad");
        VT_CHECK(st != STATUS::SUCCESS, "accepted", what << " (was '" << was << "') accepted as " << static_cast<int>(md.eFormat) << " id " << ih.usMessageId << " week " << ih.usWeek << " ms " << ih.dMilliseconds << ": " << vt::Esc(msg));
        if (k == 0) { vt::Sample(what + ": " + vt::Esc(msg)); }
    }
    // statuses the interface documents
    {
        VT_CHECK(hd.Decode(nullptr, ih, md) == STATUS::NULL_PROVIDED, "null", "a null pointer");
        unsigned char one[64];
        for (auto& x : one) { x = static_cast<unsigned char>(rng.Next()); }
        for (int k = 0; k < 20; ++k)
        {
            one[0] = static_cast<unsigned char>(rng.Next());
            one[2] = rng.Chance(0.5) ? 0x12 : static_cast<unsigned char>(rng.Next());
            one[63] = 0;
            if (strchr("#%<{", one[0]) && one[0]) { continue; }
            if (one[0] == 0xAA && (one[2] == 0x12 || one[2] == 0x13)) { continue; }
            STATUS st = hd.Decode(one, ih, md);
            VT_CHECK(st == (one[0] == '$' ? STATUS::UNSUPPORTED : STATUS::UNKNOWN), "no-format", "status " << static_cast<int>(st) << " for " << vt::Hex(std::string(reinterpret_cast<char*>(one), 4)));
            vt::Eval();
        }
        for (const char* j : {"{", "{}", "{\"body\":{}}", "{\"header\":", "{x", "{\"header\":{\"id\":1}"})
        {
            STATUS st = hd.Decode(reinterpret_cast<const unsigned char*>(j), ih, md);
            VT_CHECK(st == STATUS::FAILURE, "json", "status " << static_cast<int>(st) << " for " << j);
            vt::Eval();
        }
        oem::HeaderDecoder none;
        VT_CHECK(none.Decode(one, ih, md) == STATUS::NO_DATABASE, "no-database", "no database");
    }
}

// ---------------------------------------------------------------- C10
VT_SUITE(counts)
{
    m::GenOpt o;
    o.maxFields = 1;
    auto c = MakeCtx(rng, o, 3);
    using Key = oem::HeaderDecoder::MessageCountsKey;
    struct One { oem::HeaderDecoder d; std::map<Key, uint64_t> want; };
    std::vector<std::unique_ptr<One>> ds;
    for (int i = 0; i < 2; ++i) { ds.push_back(std::make_unique<One>(One{oem::HeaderDecoder(c->p), {}})); }
    oem::IntermediateHeader ih;
    oem::MetaDataStruct md;
    auto check = [&](const char* when) {
        for (auto& d : ds)
        {
            const auto& got = d->d.GetMessageCounts();
            std::string a, b;
            std::map<Key, uint64_t> g(got.begin(), got.end());
            if (g != d->want)
            {
                for (auto& [k, n] : g) { a += m::Fmt(" (%u,%d,%u)=%llu", std::get<0>(k), static_cast<int>(std::get<1>(k)), std::get<2>(k), (unsigned long long)n); }
                for (auto& [k, n] : d->want) { b += m::Fmt(" (%u,%d,%u)=%llu", std::get<0>(k), static_cast<int>(std::get<1>(k)), std::get<2>(k), (unsigned long long)n); }
            }
            VT_CHECK(a == b, "counts", when << ": counted" << a << " want" << b);
            vt::Eval();
        }
    };
    uint64_t trace = 0;
    int n = static_cast<int>(rng.Range(5, 150));
    uint16_t unknown;
    do { unknown = static_cast<uint16_t>(rng.Range(1, 65535)); } while (c->db.Msg(unknown));
    for (int k = 0; k < n; ++k)
    {
        auto& d = *ds[rng.Below(ds.size())];
        HEADER_FORMAT f = kHdr[rng.Below(7)];
        Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(c->db.msgs[rng.Below(c->db.msgs.size())].id), 0);
        h.sib = static_cast<uint8_t>(rng.Chance(0.5) ? 0 : rng.Chance(0.7) ? rng.Range(1, 3) : rng.Below(32));
        if (f == HEADER_FORMAT::SHORT_BINARY) { h.sib = 0; h.resp = false; }
        if (f == HEADER_FORMAT::ABB_ASCII || f == HEADER_FORMAT::SHORT_ABB_ASCII || f == HEADER_FORMAT::JSON) { h.resp = false; }
        bool bin = f == HEADER_FORMAT::BINARY || f == HEADER_FORMAT::SHORT_BINARY;
        if (bin && rng.Chance(0.15)) { h.id = rng.Chance(0.7) ? unknown : 0; }
        if (!bin && ModelNameToId(c->db, HdrName(c->db, h) + (h.resp ? "R" : "A")) == 0) { continue; }
        size_t hl = 0;
        std::string msg = MakeMsg(rng, c->db, h, f, hl, rng.Chance(0.5));
        bool bad = rng.Chance(0.2);
        if (bad)
        {
            if (bin) { msg[0] = 'x'; }
            else if (f == HEADER_FORMAT::JSON) { msg.erase(msg.find('}')); }
            else { msg[rng.Below(2) ? msg.find_first_of(", ") + 1 : 1] = '-'; }
        }
        STATUS st = d.d.Decode(reinterpret_cast<const unsigned char*>((msg + '\0').c_str()), ih, md);
        VT_CHECK((st == STATUS::SUCCESS) == !bad, "status", "status " << static_cast<int>(st) << (bad ? " for damaged " : " for ") << vt::Esc(msg));
        if (!bad && h.id != 0) { ++d.want[Key{h.id, f, h.sib}]; }
        vt::Count(bad ? "rejected" : "decoded");
        trace = vt::HashStr(msg) ^ (trace * 31);
        if (rng.Chance(0.03)) { d.d.ResetMessageCounts(); d.want.clear(); vt::Count("reset"); check("after a reset"); }
        if (rng.Chance(0.2)) { check("in the middle"); }
    }
    check("at the end");
    vt::Distinct(trace);
    vt::Sample(m::Fmt("%d headers, %zu keys", n, ds[0]->want.size()));
}
// No wrap-around at 32 bits: a counter that has reached 2^32-1 goes on. Where the map is not the counters themselves, nothing is concluded.
VT_SUITE(counts_wide)
{
    m::GenOpt o;
    o.maxFields = 1;
    auto c = MakeCtx(rng, o, 1);
    oem::HeaderDecoder d(c->p);
    oem::IntermediateHeader ih;
    oem::MetaDataStruct md;
    Hdr h = GenHdr(rng, c->db, static_cast<uint16_t>(c->db.msgs[0].id), 0);
    std::string msg = raw::BinWrap(BinHdr(h, false, 0));
    auto go = [&] { VT_CHECK(d.Decode(reinterpret_cast<const unsigned char*>(msg.data()), ih, md) == STATUS::SUCCESS, "status", "decode"); };
    go();
    oem::HeaderDecoder::MessageCountsKey key{h.id, HEADER_FORMAT::BINARY, h.sib};
    auto read = [&]() -> uint64_t { const auto& mp = d.GetMessageCounts(); auto it = mp.find(key); return it == mp.end() ? 0 : static_cast<uint64_t>(it->second); };
    VT_CHECK(read() == 1, "first", "counted " << read());
    const uint64_t start = 0xFFFFFFFFULL - rng.Below(4);
    {
        const auto& mp = d.GetMessageCounts();
        auto it = mp.find(key);
        const_cast<std::decay_t<decltype(it->second)>&>(it->second) = static_cast<std::decay_t<decltype(it->second)>>(start);
    }
    if (read() != start) { vt::Count("not-settable"); return; }
    for (uint64_t k = 1; k < 9; ++k)
    {
        go();
        VT_CHECK(read() == start + k, "wrap", "counted " << read() << " want " << start + k);
        vt::Eval();
    }
    vt::Distinct(start);
    MessageCountsTracker<int> t; // the tracker by itself
    t.Increment(5);
    using N = std::decay_t<decltype(t.GetCounts().begin()->second)>;
    const_cast<N&>(t.GetCounts().begin()->second) = static_cast<N>(0xFFFFFFFFULL);
    t.Increment(5);
    VT_CHECK(t.GetCounts().at(5) == 0x100000000ULL || t.GetCounts().at(5) == 2, "wrap", "tracker counted " << t.GetCounts().at(5));
    vt::Count("wide");
}
