// C24: pipelines on threads of their own, over shared databases and the shared loggers, under ThreadSanitizer; what each delivers is compared with
// what it delivers alone.
#define VT_NO_MAIN
#include "rangeref.hpp"
#include "rxctx.hpp"
#include <atomic>
#include <condition_variable>
#include <filesystem>
#include <fstream>
#include <mutex>
#include <novatel_edie/decoders/common/framer_manager.hpp>
#include <novatel_edie/decoders/oem/commander.hpp>
#include <novatel_edie/decoders/oem/file_parser.hpp>
#include <novatel_edie/decoders/oem/filter.hpp>
#include <novatel_edie/decoders/oem/framer.hpp>
#include <novatel_edie/decoders/oem/parser.hpp>
#include <novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp>
#include <novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp>
#include <spdlog/sinks/base_sink.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
namespace pr {
#include "parser.cpp"
}
namespace rg {
#include "range.cpp"
}
namespace cm {
#include "commander.cpp"
}
using namespace cx;
int main(int argc, char** argv) { return ::vt::Main(argc, argv); }

// ---------------------------------------------------------------- what watches the threads
static std::atomic<uint64_t> gTicket{0}; // relaxed only: it must not order anything
static double CpuSeconds()
{
    rusage u{};
    getrusage(RUSAGE_SELF, &u);
    return static_cast<double>(u.ru_utime.tv_sec + u.ru_stime.tv_sec) + 1e-6 * static_cast<double>(u.ru_utime.tv_usec + u.ru_stime.tv_usec);
}
//! Nothing moves and nothing runs for this long: the threads wait for each other.
static void StartWatchdog()
{
    std::thread([] {
        uint64_t last = 0;
        double cpu = CpuSeconds();
        for (int still = 0;;)
        {
            usleep(500000);
            uint64_t now = gTicket.load(std::memory_order_relaxed);
            double c = CpuSeconds();
            if (now != last || c - cpu > 0.02 || now == ~0ULL) { still = 0; }
            else if (++still > 80)
            {
                fprintf(stderr, "VT-DEADLOCK: no thread has run for 40 s\n");
                _exit(78);
            }
            last = now;
            cpu = c;
        }
    }).detach();
}
//! Takes what is logged, and counts it.
static std::atomic<uint64_t> gLogged{0}, gLogBytes{0};
struct CountSink final : spdlog::sinks::base_sink<std::mutex>
{
    void sink_it_(const spdlog::details::log_msg& m) override
    {
        gLogged.fetch_add(1, std::memory_order_relaxed);
        gLogBytes.fetch_add(m.payload.size(), std::memory_order_relaxed);
    }
    void flush_() override {}
};

// ---------------------------------------------------------------- programs
struct Env // what one run of one program owns
{
    std::vector<MessageDatabase::Ptr> db; // shared with every other thread
    struct Pipe
    {
        oem::HeaderDecoder hd;
        oem::MessageDecoder dec;
        oem::Encoder enc;
        oem::Framer fr;
        oem::RxConfigHandler rx;
        oem::Commander cmd;
        oem::RangeDecompressor range;
        explicit Pipe(const MessageDatabase::Ptr& p) : hd(p), dec(p), enc(p), rx(p), cmd(p), range(p) {}
    };
    std::vector<std::unique_ptr<Pipe>> pipe; // per database, made on first use
    std::vector<std::shared_ptr<spdlog::logger>> log;
    std::vector<std::string> out;
    Pipe& P(size_t i, bool fresh)
    {
        if (pipe.size() < db.size()) { pipe.resize(db.size()); }
        if (fresh || !pipe[i]) { pipe[i] = std::make_unique<Pipe>(db[i]); }
        return *pipe[i];
    }
};
using Op = std::function<std::string(Env&)>;
struct Prog { std::vector<std::pair<const char*, Op>> ops; };

static std::string N(uint64_t v) { return std::to_string(v) + " "; }
static std::string St(STATUS s) { return "status " + N(static_cast<uint64_t>(s)); }
static std::string Show(const MessageDataStruct& d)
{
    return pr::Str(d.pucMessage, d.uiMessageLength) + "|" + N(d.uiMessageHeaderLength) + N(d.uiMessageBodyLength);
}
static const struct { ENCODE_FORMAT e; HEADER_FORMAT h; } kForms[] = {{ENCODE_FORMAT::BINARY, HEADER_FORMAT::BINARY}, {ENCODE_FORMAT::ASCII, HEADER_FORMAT::ASCII}, {ENCODE_FORMAT::ABBREV_ASCII, HEADER_FORMAT::ABB_ASCII}, {ENCODE_FORMAT::JSON, HEADER_FORMAT::JSON},
                                                                     {ENCODE_FORMAT::BINARY, HEADER_FORMAT::SHORT_BINARY}, {ENCODE_FORMAT::ASCII, HEADER_FORMAT::SHORT_ASCII}, {ENCODE_FORMAT::ABBREV_ASCII, HEADER_FORMAT::SHORT_ABB_ASCII}, {ENCODE_FORMAT::FLATTENED_BINARY, HEADER_FORMAT::BINARY}};
//! A whole message through the header decoder, body decoder and encoder of one pipeline.
static std::string Through(Env::Pipe& p, const std::string& msg, const std::vector<int>& forms)
{
    std::string own = msg + std::string(8, '\0'), s;
    oem::IntermediateHeader ih;
    oem::MetaDataStruct md;
    STATUS st = p.hd.Decode(reinterpret_cast<const unsigned char*>(own.data()), ih, md);
    s += "header " + St(st);
    if (st != STATUS::SUCCESS) { return s; }
    md.uiLength = static_cast<uint32_t>(msg.size());
    s += pr::InterText(ih) + pr::MetaText(md);
    CompositeField b;
    st = p.dec.Decode(reinterpret_cast<const unsigned char*>(own.data()) + md.uiHeaderLength, b, md);
    s += " body " + St(st);
    if (st != STATUS::SUCCESS) { return s; }
    for (int k : forms)
    {
        Enc e = Encode(p.enc, ih, b, kForms[k].h, kForms[k].e, 90000);
        s += St(e.st) + e.msg + e.err;
    }
    return s;
}
static std::string Frames(oem::Framer& f, const std::string& stream, size_t chunk)
{
    std::string s;
    std::vector<unsigned char> buf(40000);
    for (size_t at = 0; at < stream.size();)
    {
        size_t k = f.Write(reinterpret_cast<const unsigned char*>(stream.data() + at), std::min(chunk, stream.size() - at));
        at += k;
        oem::MetaDataStruct md;
        for (STATUS st; (st = f.GetFrame(buf.data(), 40000, md)) == STATUS::SUCCESS || st == STATUS::UNKNOWN;) { s += St(st) + N(static_cast<uint64_t>(md.eFormat)) + pr::Str(buf.data(), md.uiLength); }
        if (k == 0) { break; }
    }
    uint32_t n = f.Flush(buf.data(), 40000);
    return s + "flush " + pr::Str(buf.data(), n);
}
static std::string ManagerFrames(const std::vector<std::string>& names, const std::string& stream, size_t chunk)
{
    FramerManager f(names);
    std::string s;
    std::vector<unsigned char> buf(40000);
    for (size_t at = 0; at < stream.size();)
    {
        size_t k = f.Write(reinterpret_cast<const unsigned char*>(stream.data() + at), std::min(chunk, stream.size() - at));
        at += k;
        MetaDataBase* md = nullptr;
        for (STATUS st; (st = f.GetFrame(buf.data(), 40000, md)) == STATUS::SUCCESS || st == STATUS::UNKNOWN;) { s += St(st) + f.GetActiveFramerName() + N(static_cast<uint64_t>(md->eFormat)) + pr::Str(buf.data(), md->uiLength); }
        if (k == 0) { break; }
    }
    return s;
}
template <typename P> std::string ReadAll(P& p, bool inter, Env::Pipe& pipe, STATUS end, bool last)
{
    std::string s;
    oem::MetaDataStruct md;
    for (;;)
    {
        MessageDataStruct d;
        oem::IntermediateHeader ih;
        CompositeField b;
        STATUS st;
        if constexpr (std::is_same_v<P, oem::Parser>) { st = inter ? p.ReadIntermediate(d, ih, b, md, last) : p.Read(d, md, last); }
        else { st = inter ? p.ReadIntermediate(d, ih, b, md) : p.Read(d, md); }
        s += St(st);
        if (st == end) { return s; }
        s += Show(d);
        if (st != STATUS::UNKNOWN) { s += pr::MetaText(md); }
        if (inter && st == STATUS::SUCCESS) { Enc e = Encode(pipe.enc, ih, b, HEADER_FORMAT::ASCII, ENCODE_FORMAT::ASCII, 90000); s += St(e.st) + e.msg; }
    }
}
static std::string Query(const MessageDatabase& db, const DbM& m)
{
    std::string s;
    for (auto& x : m.msgs)
    {
        auto a = db.GetMsgDef(static_cast<int32_t>(x.id));
        auto b = db.GetMsgDef(x.name);
        s += (a ? a->name + N(a->logID) + N(a->fieldInfo.size()) : "none") + (a == b ? "=" : "!");
        s += db.MsgIdToMsgName(x.id) + N(db.MsgNameToMsgId(x.name + "A_3"));
        if (a) { for (auto& [crc, fi] : std::map<uint32_t, FieldInfo::ConstPtr>(a->fieldInfo.begin(), a->fieldInfo.end())) { s += N(crc) + N(fi->fixedFieldBytes) + N(fi->messageOrderedFields.size()) + N(a->GetMsgDefFromCrc(crc).varFieldCount); } }
    }
    for (auto& e : m.enums)
    {
        auto a = db.GetEnumDefId(e.id);
        auto b = db.GetEnumDefName(e.name);
        s += a ? a->name + N(a->enumerators.size()) + (b ? b->_id : "") : "none";
    }
    return s;
}

// ---------------------------------------------------------------- their making, before any thread runs
struct World
{
    std::vector<DbM> dbs;           // shared databases; the last one holds the range logs
    std::vector<std::string> texts; // and as documents
    std::vector<std::string> files;
    std::vector<std::unique_ptr<Ctx>> gen; // instances that only the generators use
};
static World MakeWorld(Rng& rng, const std::string& dir)
{
    World w;
    int n = static_cast<int>(rng.Range(1, 2));
    for (int i = 0; i < n; ++i) { w.gen.push_back(RxCtx(rng)); }
    w.gen.push_back(MakeCtx(rg::Db().db));
    for (size_t i = 0; i < w.gen.size(); ++i)
    {
        w.dbs.push_back(w.gen[i]->db);
        w.texts.push_back(m::DbJson(w.dbs[i]).dump());
        w.files.push_back(dir + "/db" + std::to_string(i) + ".json");
        std::ofstream(w.files[i]) << w.texts[i];
    }
    return w;
}
static std::vector<MessageDatabase::Ptr> Load(const World& w)
{
    std::vector<MessageDatabase::Ptr> v;
    for (auto& t : w.texts) { v.push_back(ParseJsonDb(t)); }
    return v;
}
static Prog MakeProg(Rng& rng, const World& w, int nOps, const std::string& dir, int who)
{
    Prog pg;
    size_t ranges = w.dbs.size() - 1;
    auto add = [&](const char* k, Op o) { pg.ops.emplace_back(k, std::move(o)); };
    // one satellite history per program: decompressors keep state
    rg::World sky = rg::MakeWorld(rng, 4, false);
    m::ValOpt vo;
    for (int i = 0; i < nOps; ++i)
    {
        size_t di = rng.Below(ranges);
        Ctx& c = *w.gen[di];
        pr::Gen17 g(rng, c);
        bool fresh = rng.Chance(0.3), noisy = true;
        auto stream = [&](size_t n) {
            std::string s;
            for (auto& it : g.Stream(1 + rng.Below(n), noisy)) { if (s.size() < 60000) { s += it.raw; } }
            return s;
        };
        switch (rng.Below(15))
        {
        case 0: case 1: case 2: {
            std::string msg = g.Known(rng.PickOf({ENCODE_FORMAT::BINARY, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII}), rng.Chance(0.3));
            std::vector<int> forms;
            for (int k = 0; k < 8; ++k) { if (rng.Chance(0.5)) { forms.push_back(k); } }
            if (msg.empty()) { break; }
            add("codec", [=](Env& e) { return Through(e.P(di, fresh), msg, forms); });
            break;
        }
        case 3: {
            std::string s = stream(12);
            size_t chunk = rng.PickOf<size_t>({13, 200, 5000});
            add("framer", [=](Env& e) { return Frames(e.P(di, fresh).fr, s, chunk); });
            break;
        }
        case 4: {
            std::string s = stream(12);
            size_t chunk = rng.PickOf<size_t>({13, 200, 5000});
            std::vector<std::string> names = rng.PickOf<std::vector<std::string>>({{"OEM"}, {"OEM_ASCII", "OEM_BINARY"}, {"OEM_ABB_ASCII", "OEM_BINARY_SHORT", "OEM_ASCII_SHORT"}});
            add("manager", [=](Env&) { return ManagerFrames(names, s, chunk); });
            break;
        }
        case 5: case 6: {
            std::string s = stream(15);
            auto cfg = pr::GenCfg(rng, c.db);
            bool inter = rng.Chance(0.4);
            size_t chunk = rng.PickOf<size_t>({40, 700, 20000});
            add("parser", [=](Env& e) {
                oem::Parser p(e.db[di]);
                pr::Apply(p, cfg);
                p.SetIgnoreAbbreviatedAsciiResponses(cfg.ignoreAbb);
                std::string r;
                for (size_t at = 0; at < s.size();)
                {
                    size_t k = p.Write(reinterpret_cast<const unsigned char*>(s.data() + at), std::min(chunk, s.size() - at));
                    r += ReadAll(p, inter, e.P(di, false), STATUS::BUFFER_EMPTY, false);
                    if (k == 0) { break; }
                    at += k;
                }
                r += ReadAll(p, inter, e.P(di, false), STATUS::BUFFER_EMPTY, true);
                std::map<std::string, uint64_t> counts;
                for (auto& [id, n] : p.GetMessageCounts()) { counts[std::to_string(std::get<0>(id)) + "." + std::to_string(static_cast<int>(std::get<1>(id))) + "." + std::to_string(std::get<2>(id))] = n; }
                for (auto& [id, n] : counts) { r += id + ":" + N(n); }
                return r;
            });
            break;
        }
        case 7: {
            std::string s = stream(15);
            auto cfg = pr::GenCfg(rng, c.db);
            bool inter = rng.Chance(0.4);
            std::string path = dir + "/stream" + std::to_string(who) + "_" + std::to_string(i);
            std::ofstream(path, std::ios::binary) << s;
            bool file = rng.Chance(0.5);
            add("file_parser", [=](Env& e) {
                oem::FileParser p(e.db[di]);
                pr::Apply(p, cfg);
                std::shared_ptr<std::istream> in;
                if (file) { in = std::make_shared<std::ifstream>(path, std::ios::binary); }
                else { in = std::make_shared<std::istringstream>(s); }
                if (!p.SetStream(in)) { return std::string("no stream"); }
                return ReadAll(p, inter, e.P(di, false), STATUS::STREAM_EMPTY, true);
            });
            break;
        }
        case 8: {
            std::string msg = g.RxConfig();
            if (msg.empty()) { break; }
            ENCODE_FORMAT f = kForms[rng.Below(4)].e;
            add("rxconfig", [=](Env& e) {
                auto& rx = e.P(di, fresh).rx;
                (void)rx.Write(reinterpret_cast<const unsigned char*>(msg.data()), static_cast<uint32_t>(msg.size()));
                MessageDataStruct o, em;
                oem::MetaDataStruct om, emm;
                STATUS st = rx.Convert(o, om, em, emm, f);
                std::string s = St(st);
                if (st == STATUS::SUCCESS) { s += Show(o) + Show(em) + pr::MetaText(om) + pr::MetaText(emm); }
                std::vector<unsigned char> rest(40000);
                uint32_t n = rx.Flush(rest.data(), 40000);
                return s + pr::Str(rest.data(), n);
            });
            break;
        }
        case 9: {
            std::vector<std::string> logs;
            for (int k = 0; k < 4; ++k)
            {
                uint16_t id = rng.PickOf({uint16_t(140), uint16_t(1273), uint16_t(1734), uint16_t(2050), uint16_t(2537)});
                Hdr h = GenHdr(rng, w.dbs[ranges], id, 0x1235);
                h.week = static_cast<uint16_t>(sky.now / 604800000.0);
                h.ms = static_cast<uint32_t>(sky.now - h.week * 604800000.0);
                h.ts = 180;
                h.resp = false;
                std::string body = rg::MakeLog(rng, sky, id, h.sib, false), msg = rg::Message(h, body, rng.Chance(0.6) ? 0 : 1);
                if (!msg.empty() && msg.size() < 60000) { logs.push_back(msg); }
                rg::Advance(rng, sky);
            }
            ENCODE_FORMAT f = kForms[rng.Below(4)].e;
            add("range", [=](Env& e) {
                std::string s;
                auto& d = e.P(ranges, fresh).range;
                for (auto& l : logs)
                {
                    std::vector<unsigned char> b(150000);
                    memcpy(b.data(), l.data(), l.size());
                    oem::MetaDataStruct md;
                    STATUS st = d.Decompress(b.data(), 150000, md, f);
                    s += St(st);
                    if (st == STATUS::SUCCESS) { s += pr::Str(b.data(), md.uiLength); }
                }
                return s;
            });
            break;
        }
        case 10: {
            const auto& mm = g.Msg();
            m::ValOpt tv;
            tv.text = true;
            tv.msgIds = MsgIdValues(c.db);
            Body b = m::GenBody(rng, mm.Latest().f, c.db, tv);
            std::string cmd = rng.Chance(0.9) ? cm::CmdText(rng, c, mm, mm.Latest(), b) : "NOSUCH " + g.Quiet(20);
            ENCODE_FORMAT f = rng.PickOf({ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY});
            add("commander", [=](Env& e) {
                std::vector<char> o(60000);
                uint32_t n = 60000;
                STATUS st = e.P(di, fresh).cmd.Encode(cmd.data(), static_cast<uint32_t>(cmd.size()), o.data(), n, f);
                return St(st) + (st == STATUS::SUCCESS ? std::string(o.data(), n) : "");
            });
            break;
        }
        case 11: { // load a database, and use it
            std::string msg = g.Known(ENCODE_FORMAT::BINARY, false), text = w.texts[di], path = w.files[di];
            bool file = rng.Chance(0.5), bad = rng.Chance(0.15);
            if (bad) { text.resize(rng.Below(text.size())); }
            DbM dm = c.db;
            if (msg.empty()) { break; }
            add("load", [=](Env&) {
                auto db = file && !bad ? LoadJsonDbFile(path) : ParseJsonDb(text);
                Env::Pipe p(db);
                return Query(*db, dm) + Through(p, msg, {0, 1, 3});
            });
            break;
        }
        case 12: { // a database of one's own made from the shared one
            std::string msg = g.Known(ENCODE_FORMAT::BINARY, false);
            size_t dj = rng.Below(ranges);
            DbM a = w.dbs[di], b = w.dbs[dj];
            uint64_t sel = rng.Next();
            if (msg.empty()) { break; }
            add("derive", [=](Env& e) {
                Rng r(sel);
                MessageDatabase::Ptr db = r.Chance(0.5) ? std::make_shared<MessageDatabase>(*e.db[di]) : std::make_shared<MessageDatabase>();
                for (int k = 0; k < 5; ++k)
                {
                    switch (r.Below(6))
                    {
                    case 0: db->Merge(*e.db[dj]); break;
                    case 1: db->RemoveMessage(a.msgs[r.Below(a.msgs.size())].id); break;
                    case 2: db->RemoveEnumeration(a.enums[r.Below(a.enums.size())].name); break;
                    case 3: { auto d = e.db[dj]->GetMsgDef(static_cast<int32_t>(b.msgs[r.Below(b.msgs.size())].id)); if (d) { db->AppendMessages({d}); } break; }
                    case 4: { auto d = e.db[dj]->GetEnumDefId(b.enums[r.Below(b.enums.size())].id); if (d) { db->AppendEnumerations({d}); } break; }
                    default: if (r.Chance(0.3)) { db->SetMessageFamily(r.PickOf<const char*>({"OEM", ""})); } break;
                    }
                }
                db->Merge(*e.db[di]);
                Env::Pipe p(db);
                return Query(*db, a) + Through(p, msg, {0, 1, 3});
            });
            break;
        }
        case 13: {
            DbM dm = c.db;
            add("query", [=](Env& e) { return Query(*e.db[di], dm); });
            break;
        }
        default: {
            std::string name = "shared" + std::to_string(rng.Below(5));
            int mode = static_cast<int>(rng.Below(5));
            add("logger", [=](Env& e) {
                if (mode == 0) { Logger::SetLoggingLevel(spdlog::level::debug); }
                if (mode == 1) { Logger::InitLogger(); }
                auto l = mode == 2 ? CREATE_LOGGER() : Logger::RegisterLogger(name);
                e.log.push_back(l);
                for (int k = 0; k < 3; ++k) { l->info("{} says {} {}", name, k, 1.5 * k); }
                SPDLOG_LOGGER_DEBUG(l.get(), "debug {}", name);
                return l->name();
            });
            break;
        }
        }
    }
    return pg;
}
struct Trace { std::vector<std::pair<uint64_t, int>> at; };
static void Run(const Prog& p, Env& e, uint64_t yields, int who, Trace& t)
{
    Rng r(yields);
    for (auto& [k, op] : p.ops)
    {
        if (yields)
        {
            uint64_t d = r.Below(8);
            if (d < 2) { std::this_thread::yield(); }
            else if (d == 2) { usleep(static_cast<useconds_t>(r.Below(300))); }
        }
        t.at.emplace_back(gTicket.fetch_add(1, std::memory_order_relaxed), who);
        try
        {
            e.out.push_back(op(e));
        }
        catch (const std::exception& x)
        {
            e.out.push_back(std::string("raised ") + typeid(x).name() + ": " + x.what());
        }
    }
    t.at.emplace_back(gTicket.fetch_add(1, std::memory_order_relaxed), who);
    e.pipe.clear(); // pipelines go while others work
    e.log.clear();
}
//! All at the same moment.
struct Gate
{
    std::mutex m;
    std::condition_variable c;
    bool open = false;
    void Wait() { std::unique_lock l(m); c.wait(l, [&] { return open; }); }
    void Open() { { std::lock_guard l(m); open = true; } c.notify_all(); }
};
static std::string FirstDiff(const std::string& a, const std::string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { ++i; }
    size_t f = i > 120 ? i - 120 : 0;
    return "at " + std::to_string(i) + " alone ..." + vt::Esc(a.substr(f, 300)) + "... with others ..." + vt::Esc(b.substr(f, 300)) + "...";
}
static std::string Scratch()
{
    static const std::string d = [] {
        char t[] = "/tmp/vt_threads.XXXXXX";
        return std::string(mkdtemp(t));
    }();
    return d;
}
static void Together(const World& w, const std::vector<Prog>& progs, Rng& rng, std::vector<Env>& envs)
{
    auto dbs = Load(w);
    Gate gate;
    std::vector<Trace> tr(progs.size());
    envs.clear();
    envs.resize(progs.size());
    std::vector<std::thread> th;
    bool drop = rng.Chance(0.5);
    gTicket.store(1, std::memory_order_relaxed);
    for (size_t i = 0; i < progs.size(); ++i)
    {
        envs[i].db = dbs;
        th.emplace_back([&, i, y = rng.Next() | 1] {
            gate.Wait();
            Run(progs[i], envs[i], y, static_cast<int>(i), tr[i]);
            envs[i].db.clear();
        });
    }
    if (drop) { dbs.clear(); } // the last pipeline to end releases the databases
    gate.Open();
    for (auto& t : th) { t.join(); }
    gTicket.store(~0ULL, std::memory_order_relaxed);
    std::vector<std::pair<uint64_t, int>> all;
    for (auto& t : tr) { all.insert(all.end(), t.at.begin(), t.at.end()); }
    std::sort(all.begin(), all.end());
    std::string order;
    uint64_t switches = 0;
    for (size_t i = 0; i < all.size(); ++i) { order += static_cast<char>('a' + all[i].second); switches += i && all[i].second != all[i - 1].second; }
    vt::Distinct(vt::HashStr(order));
    vt::Count("operations", all.size());
    vt::Count("thread_switches_between_operations", switches);
    vt::Count("threads", progs.size());
    vt::Sample("order of operations by thread: " + order);
}

VT_SUITE(pipelines)
{
    static const bool once = [] {
        StartWatchdog();
        spdlog::get("root")->sinks().push_back(std::make_shared<CountSink>());
        return true;
    }();
    (void)once;
    gTicket.store(~0ULL, std::memory_order_relaxed);
    spdlog::set_level(spdlog::level::off);
    World w = MakeWorld(rng, Scratch());
    size_t n = rng.Range(3, 6);
    std::vector<Prog> progs;
    for (size_t i = 0; i < n; ++i)
    {
        if (i && rng.Chance(0.25)) { progs.push_back(progs[rng.Below(i)]); continue; } // the same work on two threads
        progs.push_back(MakeProg(rng, w, static_cast<int>(rng.Range(5, 25)), Scratch(), static_cast<int>(i)));
    }
    spdlog::set_level(rng.Chance(0.7) ? spdlog::level::debug : spdlog::level::off);
    std::vector<Env> with, alone(n);
    bool first = rng.Chance(0.6);
    if (first) { Together(w, progs, rng, with); }
    {
        auto dbs = Load(w);
        for (size_t i = 0; i < n; ++i)
        {
            Trace t;
            alone[i].db = dbs;
            Run(progs[i], alone[i], 0, 0, t);
            alone[i].db.clear();
        }
        gTicket.store(~0ULL, std::memory_order_relaxed);
    }
    if (!first) { Together(w, progs, rng, with); }
    spdlog::set_level(spdlog::level::off);
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t k = 0; k < progs[i].ops.size(); ++k)
        {
            vt::Eval();
            const char* what = progs[i].ops[k].first;
            VT_CHECK(k < alone[i].out.size() && k < with[i].out.size() && alone[i].out[k] == with[i].out[k], std::string("differs-") + what, "thread " << i << " operation " << k << " (" << what << ") " << FirstDiff(alone[i].out[k], with[i].out[k]));
            vt::Count(std::string("op.") + what);
            vt::Count("bytes_compared", alone[i].out[k].size());
            if (alone[i].out[k].compare(0, 6, "raised") == 0) { vt::Count(std::string("raised.") + what); }
        }
    }
    vt::Count("log_messages", gLogged.exchange(0));
    for (auto& f : std::filesystem::directory_iterator(Scratch())) { std::filesystem::remove(f.path()); }
}

// ---------------------------------------------------------------- first use
//! Everything is used for the first time by several threads at once: in a child, so that every case starts afresh. Its inputs come from the model alone.
VT_SUITE(init)
{
    struct In { std::string text, bin, ascii; DbM db; };
    std::vector<In> in;
    size_t n = rng.Range(2, 6);
    for (size_t i = 0; i < n; ++i)
    {
        if (i && rng.Chance(0.5)) { in.push_back(in[0]); continue; }
        In x;
        m::GenOpt o;
        x.db = m::GenDb(rng, o, 2);
        x.text = m::DbJson(x.db).dump();
        const auto& mm = x.db.msgs[rng.Below(x.db.msgs.size())];
        m::ValOpt vo;
        vo.text = true;
        Hdr h = GenHdr(rng, x.db, static_cast<uint16_t>(mm.id), mm.Latest().crc);
        h.resp = false;
        Body b = m::GenBody(rng, mm.Latest().f, x.db, vo);
        std::string body = m::BinaryBody(mm.Latest().f, b);
        x.bin = raw::BinWrap(BinHdr(h, false, body.size()) + body);
        auto nm = MakeNameOf(x.db);
        x.ascii = raw::AsciiWrap('#', AsciiHdr(x.db, h, false).substr(1) + m::AsciiBody(x.db, mm.Latest().f, b, nm, false).Str());
        in.push_back(std::move(x));
    }
    uint64_t sel = rng.Next();
    bool root = rng.Chance(0.5), files = rng.Chance(0.3), shutdown = rng.Chance(0.4);
    std::string dir = Scratch();
    auto work = [&](size_t i, uint64_t seed, bool mix) {
        Rng r(seed);
        std::string s;
        auto extra = [&] {
            if (!mix) { return; }
            switch (r.Below(8))
            {
            case 0: Logger::InitLogger(); break;
            case 1: Logger::SetLoggingLevel(spdlog::level::warn); break;
            case 2: (void)Logger::RegisterLogger("name" + std::to_string(r.Below(3))); break;
            case 3: if (files) { auto l = std::make_shared<spdlog::logger>("own"); Logger::AddRotatingFileLogger(l, spdlog::level::info, dir + "/log" + std::to_string(i) + "_" + std::to_string(r.Below(2)), 4096, 2); l->warn("line"); } break;
            case 4: { auto l = std::make_shared<spdlog::logger>("own"); Logger::AddConsoleLogging(l); l->info("line"); break; }
            case 5: (void)FramerManager::GetFramerId("OEM"); break;
            case 6: std::this_thread::yield(); break;
            default: break;
            }
        };
        extra();
        Rng first(seed ^ 5);
        switch (mix ? first.Below(6) : 0)
        {
        case 1: { oem::Framer f; s += Frames(f, in[i].bin, 50); break; }
        case 2: s += ManagerFrames({"OEM_BINARY", "OEM_ASCII"}, in[i].bin + in[i].ascii, 50); break;
        case 3: { oem::RangeDecompressor d(ParseJsonDb(in[i].text)); break; }
        case 4: { oem::Commander d(ParseJsonDb(in[i].text)); break; }
        default: break;
        }
        s.clear();
        extra();
        auto db = ParseJsonDb(in[i].text);
        Env::Pipe p(db);
        s += Through(p, in[i].bin, {0, 1, 2, 3}) + Through(p, in[i].ascii, {0, 1, 2, 3}) + Frames(p.fr, in[i].bin + in[i].ascii, 60);
        extra();
        oem::Parser ps(db);
        (void)ps.Write(reinterpret_cast<const unsigned char*>(in[i].bin.data()), in[i].bin.size());
        s += ReadAll(ps, true, p, STATUS::BUFFER_EMPTY, true);
        s += ManagerFrames({"OEM"}, in[i].bin + in[i].ascii, 50);
        extra();
        return s;
    };
    auto child = [&](bool together) {
        int fd[2];
        if (pipe(fd) != 0) { throw std::runtime_error("pipe"); }
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(fd[0]);
            itimerval tv{};
            tv.it_value.tv_sec = 60;
            setitimer(ITIMER_VIRTUAL, &tv, nullptr);
            StartWatchdog();
            if (!root) { spdlog::drop("root"); }
            std::vector<std::string> out(n);
            Gate gate;
            std::vector<std::thread> th;
            auto one = [&](size_t i) {
                try
                {
                    out[i] = work(i, sel + i, together);
                }
                catch (const std::exception& x)
                {
                    out[i] = std::string("raised ") + x.what();
                }
                gTicket.fetch_add(1, std::memory_order_relaxed);
            };
            if (together)
            {
                for (size_t i = 0; i < n; ++i) { th.emplace_back([&, i] { gate.Wait(); one(i); }); }
                gate.Open();
                for (auto& t : th) { t.join(); }
            }
            else { for (size_t i = 0; i < n; ++i) { one(i); } }
            if (shutdown && together) { Logger::Shutdown(); }
            for (auto& o : out)
            {
                uint64_t k = o.size();
                (void)!write(fd[1], &k, 8);
                for (size_t at = 0; at < o.size();) { ssize_t q = write(fd[1], o.data() + at, o.size() - at); if (q <= 0) { _exit(3); } at += static_cast<size_t>(q); }
            }
            _exit(0);
        }
        close(fd[1]);
        std::string all;
        char buf[65536];
        for (ssize_t k; (k = read(fd[0], buf, sizeof buf)) > 0;) { all.append(buf, static_cast<size_t>(k)); }
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) { fprintf(stderr, "child ended by signal %d\n", WTERMSIG(st)); _exit(86); }
        if (WEXITSTATUS(st) != 0) { _exit(WEXITSTATUS(st)); } // its report is on stderr
        std::vector<std::string> v;
        for (size_t at = 0; at + 8 <= all.size();)
        {
            uint64_t k;
            memcpy(&k, all.data() + at, 8);
            v.push_back(all.substr(at + 8, k));
            at += 8 + k;
        }
        return v;
    };
    auto with = child(true), alone = child(false);
    VT_CHECK(with.size() == n && alone.size() == n, "child", "output of " << with.size() << " and " << alone.size() << " threads instead of " << n);
    for (size_t i = 0; i < n; ++i)
    {
        vt::Eval();
        VT_CHECK(with[i] == alone[i], "differs", "thread " << i << " " << FirstDiff(alone[i], with[i]));
        VT_CHECK(with[i].compare(0, 17, "header status 0  ") != 0 && with[i].find("header status 0") == 0, "refused", vt::Esc(with[i].substr(0, 200)));
        vt::Count("bytes_compared", with[i].size());
    }
    vt::Count("children", 2);
    vt::Count("threads", n);
    vt::Distinct(vt::Mix(sel) ^ vt::HashStr(in[0].text));
    for (auto& f : std::filesystem::directory_iterator(dir)) { std::filesystem::remove(f.path()); }
}
