// C16: histories of filter configuration calls against a model of the configured conditions, judged on many messages after every call.
#include "vt.hpp"
#include <map>
#include <novatel_edie/decoders/oem/filter.hpp>
#include <set>
VT_MAIN()
using namespace novatel::edie;
using oem::Filter;
using oem::MetaDataStruct;

static const TIME_STATUS kTs[] = {TIME_STATUS::UNKNOWN, TIME_STATUS::APPROXIMATE, TIME_STATUS::COARSEADJUSTING, TIME_STATUS::COARSE, TIME_STATUS::COARSESTEERING, TIME_STATUS::FREEWHEELING, TIME_STATUS::FINEADJUSTING, TIME_STATUS::FINE, TIME_STATUS::FINEBACKUPSTEERING, TIME_STATUS::FINESTEERING, TIME_STATUS::SATTIME, TIME_STATUS::EXTERN, TIME_STATUS::EXACT};
static const HEADER_FORMAT kHf[] = {HEADER_FORMAT::UNKNOWN, HEADER_FORMAT::BINARY, HEADER_FORMAT::SHORT_BINARY, HEADER_FORMAT::PROPRIETARY_BINARY, HEADER_FORMAT::ASCII, HEADER_FORMAT::SHORT_ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::NMEA, HEADER_FORMAT::JSON, HEADER_FORMAT::SHORT_ABB_ASCII};

struct Model
{
    std::set<TIME_STATUS> ts;
    bool tsInv = false;
    std::set<std::tuple<uint32_t, HEADER_FORMAT, uint8_t>> ids;
    bool idInv = false;
    std::set<std::tuple<std::string, HEADER_FORMAT, uint8_t>> names;
    bool nameInv = false;
    std::optional<std::pair<uint32_t, uint64_t>> lo, hi;
    bool timeInv = false;
    std::optional<uint32_t> dec;
    bool decInv = false;
    bool nmea = false, resp = true, nonresp = true;

    //! The verdict, or nothing where it is not specified.
    [[nodiscard]] bool Admits(const MetaDataStruct& md, std::string& why) const
    {
        if (md.eFormat == HEADER_FORMAT::UNKNOWN) { why = "format"; return false; }
        if (md.eFormat == HEADER_FORMAT::NMEA) { why = "nmea"; return nmea; }
        if (md.bResponse ? !resp : !nonresp) { why = "response"; return false; }
        std::pair<uint32_t, uint64_t> t{md.usWeek, static_cast<uint64_t>(md.dMilliseconds)};
        bool above = !lo || t >= *lo, below = !hi || t <= *hi;
        if ((lo || hi) && (above && below) == timeInv) { why = "time"; return false; }
        if (!ts.empty() && ts.count(md.eTimeStatus) == tsInv) { why = "status"; return false; }
        auto has = [&](const auto& s, const auto& key) { return s.count({key, HEADER_FORMAT::ALL, md.ucSiblingId}) || s.count({key, md.eFormat, md.ucSiblingId}); };
        if (!ids.empty() && has(ids, static_cast<uint32_t>(md.usMessageId)) == idInv) { why = "id"; return false; }
        if (!names.empty() && has(names, md.messageName) == nameInv) { why = "name"; return false; }
        if (dec && *dec && (static_cast<uint64_t>(md.dMilliseconds) % *dec == 0) == decInv) { why = "decimation"; return false; }
        why = "admitted";
        return true;
    }
};
//! A model whose time and decimation inversions are to be set again before they matter: clearing a condition leaves open what becomes of its inversion.
struct Pending { bool time = false, dec = false; };

VT_SUITE(history)
{
    Filter f;
    Model m;
    Pending p;
    std::string trace;
    static const char* names[] = {"BESTPOS", "BESTVEL", "RANGE", "bestpos", "", "BESTPOSA"};
    std::vector<uint32_t> ids{1, 42, 43, static_cast<uint32_t>(rng.Range(1, 65535)), 65535, 65536 + 42};
    std::vector<uint32_t> weeks{0, 1000, 1001, static_cast<uint32_t>(rng.Range(0, 65535)), 65535, 70000};
    std::vector<uint32_t> mss{0, 1, 500, 1000, static_cast<uint32_t>(rng.Below(604800000)), static_cast<uint32_t>(rng.Below(604800000)), 604799999, static_cast<uint32_t>(rng.Below(100) * 1000)};
    std::vector<uint32_t> periods{1, 2, 3, 10, 100, 250, 500, 1000, 1001, 30000, static_cast<uint32_t>(rng.Range(1, 5000))};
    auto ms = [&] { uint32_t x = mss[rng.Below(mss.size())]; if (rng.Chance(0.4)) { x += static_cast<uint32_t>(rng.Below(3)); x -= x ? 1 : 0; } return x; };
    auto week = [&] { uint32_t x = weeks[rng.Below(weeks.size())]; if (x && rng.Chance(0.15)) { --x; } return x; };
    auto fmt = [&] { return rng.Chance(0.4) ? HEADER_FORMAT::ALL : kHf[rng.Below(std::size(kHf))]; };
    auto sib = [&] { return static_cast<uint8_t>(rng.PickOf({0, 0, 0, 1, 2, 31})); };
    auto judge = [&](int n) {
        for (int k = 0; k < n; ++k)
        {
            MetaDataStruct md;
            md.eFormat = kHf[rng.Below(rng.Chance(0.1) ? std::size(kHf) : std::size(kHf))];
            if (rng.Chance(0.5)) { md.eFormat = rng.PickOf({HEADER_FORMAT::BINARY, HEADER_FORMAT::ASCII}); }
            md.bResponse = rng.Chance(0.2);
            md.usMessageId = static_cast<uint16_t>(ids[rng.Below(ids.size())]);
            md.messageName = names[rng.Below(std::size(names))];
            md.ucSiblingId = sib();
            md.usWeek = static_cast<uint16_t>(week());
            md.dMilliseconds = ms();
            if (m.dec && *m.dec && rng.Chance(0.5)) { md.dMilliseconds = static_cast<double>(*m.dec) * static_cast<double>(rng.Below(604800000 / *m.dec + 1)); }
            md.eTimeStatus = kTs[rng.Below(std::size(kTs))];
            if (!m.ts.empty() && rng.Chance(0.5)) { auto it = m.ts.begin(); std::advance(it, rng.Below(m.ts.size())); md.eTimeStatus = *it; }
            if (!m.ids.empty() && rng.Chance(0.5)) { auto it = m.ids.begin(); std::advance(it, rng.Below(m.ids.size())); md.usMessageId = static_cast<uint16_t>(std::get<0>(*it)); md.ucSiblingId = std::get<2>(*it); if (std::get<1>(*it) != HEADER_FORMAT::ALL) { md.eFormat = std::get<1>(*it); } }
            if (!m.names.empty() && rng.Chance(0.5)) { auto it = m.names.begin(); std::advance(it, rng.Below(m.names.size())); md.messageName = std::get<0>(*it); if (rng.Chance(0.8)) { md.ucSiblingId = std::get<2>(*it); } if (std::get<1>(*it) != HEADER_FORMAT::ALL) { md.eFormat = std::get<1>(*it); } }
            if (m.lo && rng.Chance(0.3)) { md.usWeek = static_cast<uint16_t>(m.lo->first); md.dMilliseconds = static_cast<double>(m.lo->second) + static_cast<double>(rng.Range(m.lo->second ? -1 : 0, 1)); }
            else if (m.hi && rng.Chance(0.3)) { md.usWeek = static_cast<uint16_t>(m.hi->first); md.dMilliseconds = static_cast<double>(m.hi->second) + static_cast<double>(rng.Range(m.hi->second ? -1 : 0, 1)); }
            std::string why;
            bool want = m.Admits(md, why);
            bool got = f.DoFiltering(md);
            vt::Eval();
            vt::Count("verdict." + why);
            VT_CHECK(got == want, "verdict", "filter says " << got << ", the configuration says " << want << " (" << why << ") for format " << static_cast<int>(md.eFormat) << " response " << md.bResponse << " id " << md.usMessageId << " name " << md.messageName << " sibling " << static_cast<int>(md.ucSiblingId) << " time " << md.usWeek << ":" << static_cast<uint64_t>(md.dMilliseconds) << " status " << static_cast<int>(md.eTimeStatus) << " after" << trace);
        }
    };
    judge(2);
    auto log = [&](const std::string& s) { trace += " " + s; };
    int n = static_cast<int>(rng.Range(1, 30));
    for (int i = 0; i < n; ++i)
    {
        switch (rng.Below(26))
        {
        case 0: case 1: {
            uint32_t w = week();
            uint32_t t = ms();
            bool lower = rng.Chance(0.5);
            if (lower) { f.SetIncludeLowerTimeBound(w, t / 1000.0); m.lo = {w, t}; }
            else { f.SetIncludeUpperTimeBound(w, t / 1000.0); m.hi = {w, t}; }
            log((lower ? "lower(" : "upper(") + std::to_string(w) + "," + std::to_string(t) + ")");
            if (p.time) { f.InvertTimeFilter(m.timeInv); p.time = false; log("invertTime(" + std::to_string(m.timeInv) + ")"); }
            break;
        }
        case 2: { bool b = rng.Chance(0.5); f.InvertTimeFilter(b); m.timeInv = b; p.time = false; log("invertTime(" + std::to_string(b) + ")"); break; }
        case 3: f.ClearLowerTimeBound(); m.lo.reset(); log("clearLower"); if (!m.hi) { p.time = true; } break;
        case 4: f.ClearUpperTimeBound(); m.hi.reset(); log("clearUpper"); if (!m.lo) { p.time = true; } break;
        case 5: if (rng.Chance(0.5)) { f.ClearTimeBounds(); m.lo.reset(); m.hi.reset(); p.time = true; log("clearTime"); } break;
        case 6: case 7: {
            uint32_t d = periods[rng.Below(periods.size())];
            if (rng.Chance(0.03)) { d = 0; }
            if (rng.Chance(0.5)) { f.SetIncludeDecimation(d / 1000.0); }
            else { f.SetIncludeDecimationMs(d); }
            m.dec = d;
            log("decimate(" + std::to_string(d) + ")");
            if (p.dec || (d == 0 && m.decInv)) { m.decInv = d != 0 && m.decInv; f.InvertDecimationFilter(m.decInv); p.dec = false; log("invertDecimation(" + std::to_string(m.decInv) + ")"); }
            break;
        }
        case 8: { bool b = rng.Chance(0.5); if (m.dec && *m.dec == 0) { b = false; } f.InvertDecimationFilter(b); m.decInv = b; p.dec = false; log("invertDecimation(" + std::to_string(b) + ")"); break; }
        case 9: f.ClearDecimationFilter(); m.dec.reset(); p.dec = true; log("clearDecimation"); break;
        case 10: { auto t = kTs[rng.Below(std::size(kTs))]; f.IncludeTimeStatus(t); m.ts.insert(t); log("status(" + std::to_string(static_cast<int>(t)) + ")"); break; }
        case 11: {
            std::vector<TIME_STATUS> v;
            for (uint64_t k = rng.Below(4); k; --k) { v.push_back(kTs[rng.Below(std::size(kTs))]); }
            f.IncludeTimeStatus(v);
            log("statuses(");
            for (auto t : v) { m.ts.insert(t); log(std::to_string(static_cast<int>(t))); }
            log(")");
            break;
        }
        case 12: {
            auto t = kTs[rng.Below(std::size(kTs))];
            if (!m.ts.empty() && rng.Chance(0.7)) { t = *m.ts.begin(); }
            f.RemoveTimeStatus(t);
            m.ts.erase(t);
            log("removeStatus(" + std::to_string(static_cast<int>(t)) + ")");
            break;
        }
        case 13: { bool b = rng.Chance(0.5); f.InvertTimeStatusFilter(b); m.tsInv = b; log("invertStatus(" + std::to_string(b) + ")"); break; }
        case 14: f.ClearTimeStatuses(); m.ts.clear(); m.tsInv = false; log("clearStatuses"); break;
        case 15: case 16: {
            std::vector<std::tuple<uint32_t, HEADER_FORMAT, uint8_t>> v;
            bool many = rng.Chance(0.4);
            for (uint64_t k = many ? rng.Below(4) : 1; k; --k) { v.emplace_back(ids[rng.Below(ids.size())], fmt(), sib()); }
            if (many) { f.IncludeMessageId(v); }
            else if (rng.Chance(0.3)) { v[0] = {std::get<0>(v[0]), HEADER_FORMAT::ALL, 0}; f.IncludeMessageId(std::get<0>(v[0])); }
            else { f.IncludeMessageId(std::get<0>(v[0]), std::get<1>(v[0]), std::get<2>(v[0])); }
            for (auto& t : v) { m.ids.insert(t); log("id(" + std::to_string(std::get<0>(t)) + "," + std::to_string(static_cast<int>(std::get<1>(t))) + "," + std::to_string(std::get<2>(t)) + ")"); }
            break;
        }
        case 17: {
            std::tuple<uint32_t, HEADER_FORMAT, uint8_t> t{ids[rng.Below(ids.size())], fmt(), sib()};
            if (!m.ids.empty() && rng.Chance(0.7)) { auto it = m.ids.begin(); std::advance(it, rng.Below(m.ids.size())); t = *it; }
            f.RemoveMessageId(std::get<0>(t), std::get<1>(t), std::get<2>(t));
            m.ids.erase(t);
            log("removeId(" + std::to_string(std::get<0>(t)) + "," + std::to_string(static_cast<int>(std::get<1>(t))) + "," + std::to_string(std::get<2>(t)) + ")");
            break;
        }
        case 18: { bool b = rng.Chance(0.5); f.InvertMessageIdFilter(b); m.idInv = b; log("invertId(" + std::to_string(b) + ")"); break; }
        case 19: f.ClearMessageIds(); m.ids.clear(); m.idInv = false; log("clearIds"); break;
        case 20: case 21: {
            std::vector<std::tuple<std::string, HEADER_FORMAT, uint8_t>> v;
            bool many = rng.Chance(0.4);
            for (uint64_t k = many ? rng.Below(4) : 1; k; --k) { v.emplace_back(names[rng.Below(std::size(names))], fmt(), sib()); }
            if (many) { f.IncludeMessageName(v); }
            else
            {
                std::string nm = std::get<0>(v[0]); // the name given need not outlive the call
                if (rng.Chance(0.3)) { v[0] = {nm, HEADER_FORMAT::ALL, 0}; f.IncludeMessageName(nm); }
                else { f.IncludeMessageName(nm, std::get<1>(v[0]), std::get<2>(v[0])); }
                std::fill(nm.begin(), nm.end(), '!');
            }
            for (auto& t : v) { m.names.insert(t); log("name(" + std::get<0>(t) + "," + std::to_string(static_cast<int>(std::get<1>(t))) + "," + std::to_string(std::get<2>(t)) + ")"); }
            break;
        }
        case 22: {
            std::tuple<std::string, HEADER_FORMAT, uint8_t> t{names[rng.Below(std::size(names))], fmt(), sib()};
            if (!m.names.empty() && rng.Chance(0.7)) { auto it = m.names.begin(); std::advance(it, rng.Below(m.names.size())); t = *it; }
            f.RemoveMessageName(std::get<0>(t), std::get<1>(t), std::get<2>(t));
            m.names.erase(t);
            log("removeName(" + std::get<0>(t) + "," + std::to_string(static_cast<int>(std::get<1>(t))) + "," + std::to_string(std::get<2>(t)) + ")");
            break;
        }
        case 23: { bool b = rng.Chance(0.5); f.InvertMessageNameFilter(b); m.nameInv = b; log("invertName(" + std::to_string(b) + ")"); break; }
        case 24:
            if (rng.Chance(0.5)) { f.ClearMessageNames(); m.names.clear(); m.nameInv = false; log("clearNames"); }
            else if (rng.Chance(0.4)) { f.ClearFilters(); m = Model(); p = Pending(); log("clear"); }
            break;
        default: {
            bool b = rng.Chance(0.6);
            switch (rng.Below(3))
            {
            case 0: f.IncludeNmeaMessages(b); m.nmea = b; log("nmea(" + std::to_string(b) + ")"); break;
            case 1: f.IncludeResponses(b); m.resp = b; log("responses(" + std::to_string(b) + ")"); break;
            default: f.IncludeNonResponses(b); m.nonresp = b; log("nonResponses(" + std::to_string(b) + ")"); break;
            }
            break;
        }
        }
        judge(4);
    }
    vt::Distinct(vt::HashStr(trace));
    vt::Sample(trace);
}
//! Times and periods given in seconds stand for the milliseconds they are written with.
VT_SUITE(seconds)
{
    uint32_t x = static_cast<uint32_t>(rng.Chance(0.3) ? rng.Below(20000) : rng.Below(604800000));
    double s = x / 1000.0;
    vt::Distinct(x);
    MetaDataStruct md;
    md.eFormat = HEADER_FORMAT::BINARY;
    md.usWeek = 2000;
    for (int d = x ? -1 : 0; d <= 1; ++d)
    {
        md.dMilliseconds = static_cast<double>(x) + d;
        Filter lo, hi, de;
        lo.SetIncludeLowerTimeBound(2000, s);
        hi.SetIncludeUpperTimeBound(2000, s);
        vt::Eval(3);
        VT_CHECK(lo.DoFiltering(md) == (d >= 0), "lower", "lower bound " << x << " ms, message " << d << " ms from it");
        VT_CHECK(hi.DoFiltering(md) == (d <= 0), "upper", "upper bound " << x << " ms, message " << d << " ms from it");
        if (x > 1)
        {
            de.SetIncludeDecimation(s);
            VT_CHECK(de.DoFiltering(md) == (d == 0), "decimation", "period " << x << " ms, message " << d << " ms from it");
        }
    }
}
