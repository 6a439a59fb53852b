// C23: an abbreviated command and the ASCII or binary command made from it say the same; what is not a command is refused.
#include "codec.hpp"
#include <novatel_edie/decoders/oem/commander.hpp>
#include <novatel_edie/decoders/oem/framer.hpp>
VT_MAIN()
using namespace cx;
using oem::Commander;

//! Equal as far as the field's text tells.
static bool TextEq(const Ctx& c, const FieldM& f, uint64_t w, uint64_t g)
{
    if (f.kind == K::Enum) { return m::EnumText(c.db, f, w) == m::EnumText(c.db, f, g); }
    if (f.t != T::FLOAT && f.t != T::DOUBLE && f.alpha != "m") { return ExactEq(f, w, g); }
    for (auto& a : m::ElemTexts(f, w, c.nm)) { for (auto& b : m::ElemTexts(f, g, c.nm)) { if (a == b) { return true; } } }
    return false;
}
static bool Switching(const std::vector<FieldM>& fs)
{
    for (auto& f : fs) { if (f.alpha == "k" || f.alpha == "g" || f.alpha == "lk" || f.alpha == "lg" || Switching(f.sub)) { return true; } }
    return false;
}
struct Out
{
    STATUS st = STATUS::UNKNOWN;
    std::string msg, err;
    bool nul = false; //!< a NUL follows the message
};
//! The ways to run a commander over the same database.
struct Ways
{
    Ctx& c;
    Commander made, late;
    oem::MessageDecoder dec;
    oem::Encoder enc;
    explicit Ways(Ctx& x) : c(x), made(x.p), dec(x.p), enc(x.p) { late.LoadJsonDb(x.p); }
    STATUS Do(int way, const char* t, uint32_t n, char* out, uint32_t& cap, ENCODE_FORMAT f)
    {
        if (way == 0) { return made.Encode(t, n, out, cap, f); }
        if (way == 1) { return late.Encode(t, n, out, cap, f); }
        return Commander::Encode(*c.p, dec, enc, t, n, out, cap, f);
    }
    //! The command in a block of exactly its size, the result in a block of exactly the capacity.
    Out Run(int way, const std::string& cmd, size_t cap, ENCODE_FORMAT f)
    {
        Out o;
        std::unique_ptr<char[]> t(new char[cmd.size()]), b(new char[cap]);
        memcpy(t.get(), cmd.data(), cmd.size());
        memset(b.get(), 0x5A, cap);
        uint32_t n = static_cast<uint32_t>(cap);
        o.st = Do(way, t.get(), static_cast<uint32_t>(cmd.size()), b.get(), n, f);
        if (memcmp(t.get(), cmd.data(), cmd.size()) != 0) { o.err = "the command was changed"; }
        if (o.st != STATUS::SUCCESS) { return o; }
        if (n > cap) { o.err = "length " + std::to_string(n) + " of " + std::to_string(cap); return o; }
        o.msg.assign(b.get(), n);
        o.nul = n < cap && b[n] == 0;
        return o;
    }
};
static void FrameCheck(const std::string& msg, HEADER_FORMAT want, const std::string& ctx)
{
    oem::Framer fr;
    fr.Write(reinterpret_cast<const unsigned char*>(msg.data()), msg.size());
    std::vector<unsigned char> out(40000);
    oem::MetaDataStruct md;
    STATUS st = fr.GetFrame(out.data(), static_cast<uint32_t>(out.size()), md);
    VT_CHECK(st == STATUS::SUCCESS && md.uiLength == msg.size() && memcmp(out.data(), msg.data(), msg.size()) == 0 && md.eFormat == want, "frame",
             "framer says status " << static_cast<int>(st) << " format " << static_cast<int>(md.eFormat) << " length " << md.uiLength << ctx);
}
//! What the message says must be what the command said.
static void Judge(Ways& w, const m::MsgM& mm, const m::DefM& def, const Body& b, const Out& o, ENCODE_FORMAT f, const std::string& ctx)
{
    const auto& db = w.c.db;
    Hdr h;
    h.id = static_cast<uint16_t>(mm.id);
    h.sib = 0, h.resp = false, h.port = 0xC0, h.seq = 0, h.idle = 0, h.ts = 0, h.week = 0, h.ms = 0, h.rx = 0, h.defcrc = def.crc, h.sw = 0;
    if (f == ENCODE_FORMAT::ASCII)
    {
        std::string hd = AsciiHdr(db, h, false);
        VT_CHECK(o.msg.compare(0, hd.size(), hd) == 0, "ascii-header", "want " << hd << ctx);
        std::string body = o.msg.substr(hd.size());
        VT_CHECK(body.size() >= 11, "ascii-end", "no checksum" << ctx);
        std::string in = o.msg.substr(1, o.msg.size() - 12);
        VT_CHECK(o.msg == raw::AsciiWrap('#', in), "ascii-crc", "want " << vt::Esc(raw::AsciiWrap('#', in), 3000) << ctx);
        if (!Switching(def.f))
        {
            auto p = m::AsciiBody(db, def.f, b, w.c.nm, false);
            size_t at = p.Match(body.substr(0, body.size() - 11));
            VT_CHECK(at == std::string::npos, "ascii-body", "from byte " << at << " want " << vt::Esc(p.Str(), 3000) << ctx);
        }
        FrameCheck(o.msg, HEADER_FORMAT::ASCII, ctx);
    }
    else
    {
        VT_CHECK(o.msg.size() >= 32, "bin-size", "too short" << ctx);
        std::string hd = BinHdr(h, false, o.msg.size() - 32);
        VT_CHECK(o.msg.compare(0, 28, hd) == 0, "bin-header", "want " << vt::Hex(hd) << ctx);
        VT_CHECK(o.msg == raw::BinWrap(o.msg.substr(0, o.msg.size() - 4)), "bin-crc", "wrong checksum" << ctx);
        std::string bin = m::BinaryBody(def.f, b);
        VT_CHECK(bin.size() == o.msg.size() - 32, "bin-length", "body of " << o.msg.size() - 32 << " bytes instead of " << bin.size() << ctx);
        FrameCheck(o.msg, HEADER_FORMAT::BINARY, ctx);
    }
    // and decoded again
    oem::HeaderDecoder hd(w.c.p);
    oem::MessageDecoder dec(w.c.p);
    std::string own = o.msg + std::string(8, '\0');
    oem::IntermediateHeader ih;
    oem::MetaDataStruct md;
    VT_CHECK(hd.Decode(reinterpret_cast<const unsigned char*>(own.data()), ih, md) == STATUS::SUCCESS && ih.usMessageId == mm.id && (ih.ucMessageType & 0x9F) == 0 && (ih.uiPortAddress & 0xFF) == 0xC0 && md.messageName == mm.name && !md.bResponse, "header",
             "header decodes to id " << ih.usMessageId << " port " << ih.uiPortAddress << " name " << md.messageName << ctx);
    md.uiLength = static_cast<uint32_t>(o.msg.size());
    CompositeField back;
    VT_CHECK(dec.Decode(reinterpret_cast<const unsigned char*>(own.data()) + md.uiHeaderLength, back, md) == STATUS::SUCCESS, "body", "body refused" << ctx);
    const auto& fi = *w.c.p->GetMsgDef(static_cast<int32_t>(mm.id))->fieldInfo.at(def.crc);
    std::string d = Compare(back, fi, def.f, b, [&](const FieldM& x, uint64_t u, uint64_t v) { return TextEq(w.c, x, u, v); });
    VT_CHECK(d.empty(), "value", d << ctx);
}
static std::string CmdText(Rng& rng, const Ctx& c, const m::MsgM& mm, const m::DefM& def, const Body& b)
{
    std::string p = m::AsciiBody(c.db, def.f, b, c.nm, true).Str();
    size_t at = p.find_first_not_of("< ");
    p = at == std::string::npos ? "" : p.substr(at);
    if (p.empty()) { return mm.name + rng.PickOf({"", " ", "\r\n", "\r", "\n", "  ", " \r\n"}); }
    return mm.name + rng.PickOf({" ", " ", " ", "  ", "     "}) + p + rng.PickOf({"", "", "\r\n", "\r", " ", " \r\n"});
}
static const ENCODE_FORMAT kE[] = {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY};

struct Base
{
    std::unique_ptr<Ctx> c;
    m::ValOpt vo;
    Base(Rng& rng)
    {
        m::GenOpt o;
        o.empty = true;
        o.lenRef = rng.Chance(0.2);
        c = MakeCtx(rng, o, 2);
        vo.text = vo.knownEnum = vo.canonBool = true;
        vo.msgIds = MsgIdValues(c->db);
    }
};

VT_SUITE(commands)
{
    Base s(rng);
    Ways w(*s.c);
    for (auto& mm : s.c->db.msgs)
    {
        const auto& def = mm.Latest();
        for (int k = 0; k < 4; ++k)
        {
            s.vo.full = k == 0;
            s.vo.special = k == 2;
            Body b = m::GenBody(rng, def.f, s.c->db, s.vo);
            std::string cmd = CmdText(rng, *s.c, mm, def, b);
            if (cmd.size() > 15000) { continue; }
            for (auto f : kE)
            {
                int way = static_cast<int>(rng.Below(3));
                Out o = w.Run(way, cmd, 60000, f);
                auto ctx = [&] { return " way " + std::to_string(way) + " command " + vt::Esc(cmd, 3000) + " got " + (f == ENCODE_FORMAT::ASCII ? vt::Esc(o.msg, 3000) : vt::Hex(o.msg)) + " def " + Describe(mm, s.c->db); };
                VT_CHECK(o.st == STATUS::SUCCESS, "status", "returned " << static_cast<int>(o.st) << ctx());
                VT_CHECK(o.err.empty(), "range", o.err << ctx());
                VT_CHECK(o.nul, "nul", "not null-terminated" << ctx());
                Judge(w, mm, def, b, o, f, ctx());
                vt::Eval();
                vt::Distinct(vt::HashStr(o.msg));
                vt::Count(f == ENCODE_FORMAT::ASCII ? "ascii" : "binary");
                vt::Count(mm.defs.size() > 1 ? "several_definitions" : "one_definition");
                vt::Sample(vt::Esc(cmd, 200));
                // every way gives the same
                for (int x = 0; x < 3; ++x)
                {
                    Out q = w.Run(x, cmd, 60000, f);
                    VT_CHECK(q.st == o.st && q.msg == o.msg, "ways", "way " << x << " gave status " << static_cast<int>(q.st) << " " << vt::Esc(q.msg, 2000) << ctx());
                }
                // every capacity around the length, and some below
                std::vector<size_t> caps = {0, 1, 27, 28, 31, 32, o.msg.size() - 1, o.msg.size(), o.msg.size() + 1, o.msg.size() + 2};
                for (int x = 0; x < 6; ++x) { caps.push_back(rng.Below(o.msg.size())); }
                for (size_t cap : caps)
                {
                    Out q = w.Run(static_cast<int>(rng.Below(3)), cmd, cap, f);
                    VT_CHECK(q.err.empty(), "range", q.err << ctx());
                    if (cap < o.msg.size()) { VT_CHECK(q.st == STATUS::BUFFER_FULL, "full", "status " << static_cast<int>(q.st) << " for " << cap << " bytes" << ctx()); }
                    else { VT_CHECK(q.st == STATUS::SUCCESS && q.msg == o.msg && q.nul == (cap > o.msg.size()), "fits", "status " << static_cast<int>(q.st) << " for " << cap << " bytes " << vt::Esc(q.msg, 500) << ctx()); }
                    vt::Eval();
                    vt::Count("capacities");
                }
            }
        }
    }
}

//! Names no message has, formats commands do not come in, parameters that are missing or too long, missing pointers.
VT_SUITE(refused)
{
    Base s(rng);
    Ways w(*s.c);
    auto refuse = [&](const std::string& what, const std::string& cmd, std::initializer_list<STATUS> ok) {
        for (auto f : kE)
        {
            int way = static_cast<int>(rng.Below(3));
            Out o = w.Run(way, cmd, 40000, f);
            bool in = false;
            for (auto x : ok) { in |= o.st == x; }
            VT_CHECK(in, what, "returned " << static_cast<int>(o.st) << " way " << way << " for " << vt::Esc(cmd, 2000) << " got " << vt::Esc(o.msg, 1000));
            vt::Eval();
            vt::Distinct(vt::HashStr(cmd));
            vt::Count(what);
        }
    };
    for (auto& mm : s.c->db.msgs)
    {
        const auto& def = mm.Latest();
        s.vo.special = false;
        Body b = m::GenBody(rng, def.f, s.c->db, s.vo);
        std::string params = m::AsciiBody(s.c->db, def.f, b, s.c->nm, true).Str();
        size_t at = params.find_first_not_of("< ");
        params = at == std::string::npos ? "" : params.substr(at);
        if (params.size() > 15000) { continue; }
        auto known = [&](const std::string& n) { for (auto& x : s.c->db.msgs) { if (x.name == n) { return true; } } return false; };
        for (std::string n : {mm.name + "Q", mm.name.substr(0, mm.name.size() - 1), std::string(), std::string("NOSUCHCOMMAND"), mm.name + std::string(1, '\0'), std::string(rng.Below(40000), 'N')})
        {
            if (!known(n)) { refuse("unknown", n + (rng.Chance(0.7) ? " " + params : ""), {STATUS::NO_DEFINITION}); }
        }
        // a command that goes on for longer than any message
        for (size_t n : {size_t(32766), size_t(32767), size_t(32768), size_t(32769), size_t(40000), size_t(200000)})
        {
            refuse("long", mm.name + " " + std::string(n, '9'), {STATUS::MALFORMED_INPUT, STATUS::SUCCESS, STATUS::BUFFER_FULL});
        }
        refuse("too_long", mm.name + " " + params + " " + std::string(32768, rng.PickOf({' ', '1', 'x'})), {STATUS::MALFORMED_INPUT});
        if (!def.f.empty()) { refuse("no_parameters", mm.name + rng.PickOf({"", " ", "\r\n", " \r\n", "   "}), {STATUS::MALFORMED_INPUT}); }
        // parameters missing at the end
        if (!def.f.empty() && def.f.back().kind == K::Simple)
        {
            size_t sp = params.find_last_of(' ');
            if (params.find('"') == std::string::npos && params.find('\'') == std::string::npos && def.f.back().alpha != "c")
            {
                refuse("last_missing", mm.name + (sp == std::string::npos ? "" : " " + params.substr(0, sp)) + rng.PickOf({"", "\r\n", " "}), {STATUS::MALFORMED_INPUT});
            }
        }
        char tmp[8];
        for (auto f : {ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY, ENCODE_FORMAT::UNSPECIFIED})
        {
            std::string cmd = mm.name + " " + params;
            for (int way = 0; way < 3; ++way) { VT_CHECK(w.Run(way, cmd, 1000, f).st == STATUS::UNSUPPORTED, "format", "format " << static_cast<int>(f) << " not refused"); }
        }
        for (auto f : kE)
        {
            uint32_t n = 8;
            for (int way = 0; way < 3; ++way)
            {
                VT_CHECK(w.Do(way, nullptr, rng.Chance(0.5) ? 0 : 5, tmp, n, f) == STATUS::NULL_PROVIDED && w.Do(way, mm.name.c_str(), static_cast<uint32_t>(mm.name.size()), nullptr, n, f) == STATUS::NULL_PROVIDED, "null", "missing pointers not refused");
            }
            Commander none;
            std::string cmd = mm.name + " " + params;
            VT_CHECK(none.Encode(cmd.data(), static_cast<uint32_t>(cmd.size()), tmp, n, f) == STATUS::NO_DATABASE, "no-database", "no database not reported");
            vt::Eval();
        }
    }
}

//! Damaged commands: what the decoder makes of the parameters, and the encoder of that, is what the commander makes of them.
VT_SUITE(damaged)
{
    Base s(rng);
    Ways w(*s.c);
    oem::MessageDecoder dec(s.c->p);
    oem::Encoder enc(s.c->p);
    for (auto& mm : s.c->db.msgs)
    {
        const auto& def = mm.Latest();
        for (int k = 0; k < 10; ++k)
        {
            Body b = m::GenBody(rng, def.f, s.c->db, s.vo);
            std::string cmd = CmdText(rng, *s.c, mm, def, b);
            if (cmd.size() > 15000) { continue; }
            switch (rng.Below(6))
            {
            case 0: cmd.resize(rng.Below(cmd.size() + 1)); break;
            case 1: for (size_t n = rng.Below(4) + 1; n; --n) { cmd[rng.Below(cmd.size())] = static_cast<char>(rng.Below(256)); } break;
            case 2: { size_t p = rng.Below(cmd.size()); cmd.erase(p, rng.Below(6) + 1); break; }
            case 3: cmd.insert(rng.Below(cmd.size() + 1), rng.PickOf({"\"", " ", "-", "9", "99999999999999999999", "\\x", "\\", "e999", ",", "*", "\r\n", "<"})); break;
            case 4: cmd = mm.name + " " + rng.Bytes(rng.Below(60)); break;
            default: cmd += " " + rng.Bytes(rng.Below(20)); break;
            }
            size_t cut = cmd.find_first_of(" \r\n");
            std::string name = cmd.substr(0, cut), params = cut == std::string::npos ? "" : cmd.substr(cut);
            const m::MsgM* hit = nullptr;
            for (auto& x : s.c->db.msgs) { if (x.name == name) { hit = &x; } }
            for (auto f : kE)
            {
                int way = static_cast<int>(rng.Below(3));
                Out o = w.Run(way, cmd, 60000, f);
                auto ctx = [&] { return " way " + std::to_string(way) + " command " + vt::Esc(cmd, 3000) + " got " + vt::Esc(o.msg, 3000) + " def " + Describe(mm, s.c->db); };
                VT_CHECK(o.err.empty(), "range", o.err << ctx());
                vt::Eval();
                vt::Distinct(vt::HashStr(cmd));
                if (!hit)
                {
                    VT_CHECK(o.st == STATUS::NO_DEFINITION, "unknown", "status " << static_cast<int>(o.st) << ctx());
                    vt::Count("unknown");
                    continue;
                }
                // the components by hand
                Hdr h;
                h.id = static_cast<uint16_t>(hit->id);
                h.sib = 0, h.resp = false, h.port = 0xC0, h.seq = 0, h.idle = 0, h.ts = 0, h.week = 0, h.ms = 0, h.rx = 0, h.defcrc = hit->Latest().crc, h.sw = 0;
                oem::MetaDataStruct md;
                FillMeta(md, h, hit->name, HEADER_FORMAT::ABB_ASCII, 0);
                md.uiMessageCrc = hit->Latest().crc;
                md.uiLength = md.uiHeaderLength = 0;
                CompositeField body;
                STATUS st = dec.Decode(reinterpret_cast<const unsigned char*>(params.c_str()), body, md);
                if (st != STATUS::SUCCESS)
                {
                    VT_CHECK(o.st != STATUS::SUCCESS, "accepted", "parameters the decoder refuses (" << static_cast<int>(st) << ") became a command" << ctx());
                    vt::Count("refused");
                    continue;
                }
                Enc e = Encode(enc, ToInter(h), body, HEADER_FORMAT::ASCII, f, 60000);
                VT_CHECK(o.st == e.st && (o.st != STATUS::SUCCESS || o.msg == e.msg), "differs", "status " << static_cast<int>(o.st) << " by hand " << static_cast<int>(e.st) << " " << vt::Esc(e.msg, 3000) << ctx());
                vt::Count("accepted");
            }
        }
    }
}

//! Databases whose messages have no (latest) definition: reported, by the commander and by the decoder.
VT_SUITE(undefined)
{
    Base s(rng);
    auto j = m::DbJson(s.c->db);
    bool none = rng.Chance(0.5);
    uint32_t crc = static_cast<uint32_t>(rng.Next());
    for (auto& mj : j["messages"])
    {
        if (none) { mj["fields"] = nlohmann::ordered_json::object(); }
        else { while (mj["fields"].contains(std::to_string(crc))) { ++crc; } }
        mj["latestMsgDefCrc"] = std::to_string(crc);
    }
    Ctx c{s.c->db, ParseJsonDb(j.dump()), {}};
    Ways w(c);
    oem::MessageDecoder dec(c.p);
    for (auto& mm : c.db.msgs)
    {
        auto one = [&](const char* what, auto&& fn) {
            STATUS st = STATUS::UNKNOWN;
            std::string thrown;
            try { st = fn(); }
            catch (const std::exception& e) { thrown = e.what(); }
            VT_CHECK(st == STATUS::NO_DEFINITION && thrown.empty(), what, "message " << mm.id << " without a definition: status " << static_cast<int>(st) << " exception '" << thrown << "'");
            vt::Eval();
            vt::Distinct(vt::HashStr(what + mm.name));
            vt::Count(what);
        };
        const auto& def = mm.Latest();
        Body b = m::GenBody(rng, def.f, c.db, s.vo);
        std::string cmd = CmdText(rng, *s.c, mm, def, b), bin = m::BinaryBody(def.f, b);
        for (int way = 0; way < 3; ++way) { one("command", [&] { return w.Run(way, cmd, 60000, rng.PickOf({ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY})).st; }); }
        Hdr h = GenHdr(rng, c.db, static_cast<uint16_t>(mm.id), crc);
        oem::MetaDataStruct md;
        FillMeta(md, h, mm.name, HEADER_FORMAT::BINARY, bin.size());
        md.uiMessageCrc = crc;
        CompositeField body;
        one("decode", [&] { return h.resp ? STATUS::NO_DEFINITION : dec.Decode(reinterpret_cast<const unsigned char*>(bin.data()), body, md); });
    }
}
