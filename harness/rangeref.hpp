// Independent reference for the compressed range logs: what each field of each generation means, written from the documented formats.
#pragma once
#include "rawgen.hpp"
#include "vt.hpp"
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>

namespace rr {
using raw::RdLE;
static const double C = 299792458.0;
static const double L1 = 1575.42e6, L2 = 1227.6e6, L5 = 1176.45e6, E5B = 1207.14e6, E6 = 1278.75e6, ALT = 1191.795e6, B1 = 1561.098e6, B3 = 1268.52e6, G3 = 1202.025e6, G1 = -1, G2 = -2;
struct Sig { int sys, sig, cts; double freq, scale; bool primary; };
//! sys: the number of the compressed formats; cts: the signal number in a tracking status word.
inline const std::vector<Sig>& Table(int gen)
{
    static const std::vector<Sig> common = {
        {0, 1, 0, L1, 1, true},   {0, 4, 9, L2, 154.0 / 120, false}, {0, 5, 17, L2, 154.0 / 120, false}, {0, 6, 5, L2, 154.0 / 120, false}, {0, 7, 14, L5, 154.0 / 115, false}, {0, 15, 16, L1, 1, false},
        {1, 1, 0, G1, 1, true},   {1, 3, 1, G2, 9.0 / 7, false},     {1, 4, 5, G2, 9.0 / 7, false},      {1, 6, 6, G3, 313.0 / 235, false},
        {2, 1, 0, L1, 1, true},   {2, 2, 6, L5, 154.0 / 115, false},
        {5, 1, 2, L1, 1, true},   {5, 2, 12, L5, 154.0 / 115, false}, {5, 3, 17, E5B, 154.0 / 118, false}, {5, 4, 20, ALT, 154.0 / 116.5, false}, {5, 5, 7, E6, 154.0 / 125, false}, {5, 12, 6, E6, 154.0 / 125, false},
        {7, 1, 0, L1, 1, true},   {7, 2, 24, L1, 1, true},           {7, 3, 17, L2, 154.0 / 120, false}, {7, 4, 14, L5, 154.0 / 115, false}, {7, 8, 16, L1, 1, false}, {7, 10, 28, E6, 154.0 / 125, false}, {7, 11, 27, E6, 154.0 / 125, false},
        {9, 1, 0, L5, 1, false}};
    static const std::vector<Sig> two = [] {
        auto v = common;
        for (auto& s : std::vector<Sig>{{6, 1, 0, B1, 1, true}, {6, 2, 4, B1, 1, true}, {6, 3, 1, E5B, 1526.0 / 1180, false}, {6, 4, 5, E5B, 1526.0 / 1180, false}, {6, 13, 2, B3, 1526.0 / 1240, false},
                                        {6, 16, 6, B3, 1526.0 / 1240, false}, {6, 19, 7, L1, 1526.0 / 1540, false}, {6, 20, 9, L5, 1526.0 / 1150, false}, {6, 21, 11, E5B, 1526.0 / 1180, false}}) { v.push_back(s); }
        return v;
    }();
    static const std::vector<Sig> four = [] {
        auto v = common;
        for (auto& s : std::vector<Sig>{{6, 1, 0, B1, 1, true}, {6, 2, 4, B1, 1, true}, {6, 3, 1, E5B, 1, false}, {6, 4, 5, E5B, 1, false}, {6, 5, 2, B3, 1, false}, {6, 6, 6, B3, 1, false}, {6, 7, 7, L1, 1, false},
                                        {6, 9, 9, L5, 1, false}, {6, 11, 11, E5B, 1, false}}) { v.push_back(s); }
        return v;
    }();
    return gen == 2 ? two : four;
}
inline const Sig* Find(int gen, int sys, int sig) { for (auto& s : Table(gen)) { if (s.sys == sys && s.sig == sig) { return &s; } } return nullptr; }
inline int CtsSys(int sys) { switch (sys) { case 0: return 0; case 1: return 1; case 2: return 2; case 5: return 3; case 6: return 4; case 7: return 5; case 9: return 6; default: return 7; } }
//! Wavelength; glo is the frequency number plus 7. Zero: not a known signal (or frequency).
inline double Wave(const Sig* s, int glo)
{
    if (!s) { return 0; }
    if (s->freq == G1) { return glo < 0 || glo > 20 ? 0 : C / (1602e6 + (glo - 7) * 562500.0); }
    if (s->freq == G2) { return glo < 0 || glo > 20 ? 0 : C / (1246e6 + (glo - 7) * 437500.0); }
    return C / s->freq;
}
inline const Sig* FromCts(uint32_t word)
{
    for (auto& s : Table(4)) { if (CtsSys(s.sys) == static_cast<int>((word >> 16) & 7) && s.cts == static_cast<int>((word >> 21) & 31)) { return &s; } }
    return nullptr;
}
struct Obs
{
    int prn = 0, glo = 0;
    double psr = 0, psrStd = 0, adr = 0, adrStd = 0, dop = 0, cno = 0, lock = 0;
    uint32_t cts = 0, ctsMask = 0xFFFFFFFF;
    bool uPrn = false, uPsr = false, uAdr = false, uDop = false, uLock = false; // not determined by the format
    std::tuple<int, int, int> key;
    int lockBits = -1;
    [[nodiscard]] std::string Text() const { std::ostringstream o; o.precision(17); o << "prn " << prn << " glo " << glo << " psr " << psr << " std " << psrStd << " adr " << adr << " std " << adrStd << " dop " << dop << " cno " << cno << " lock " << lock << " cts " << std::hex << cts; return o.str(); }
};
struct Bits // least significant bit first
{
    std::string_view d;
    size_t at = 0;
    bool bad = false;
    uint64_t Get(int n)
    {
        uint64_t v = 0;
        if (at + static_cast<size_t>(n) > d.size() * 8) { bad = true; return 0; }
        for (int i = 0; i < n; ++i, ++at) { v |= static_cast<uint64_t>((static_cast<unsigned char>(d[at / 8]) >> (at % 8)) & 1) << i; }
        return v;
    }
    int64_t GetS(int n) { uint64_t v = Get(n); return v >> (n - 1) & 1 ? static_cast<int64_t>(v | (n == 64 ? 0 : ~0ULL << n)) : static_cast<int64_t>(v); }
};
struct BitW
{
    std::string d;
    size_t at = 0;
    void Put(uint64_t v, int n) { for (int i = 0; i < n; ++i, ++at) { if (at % 8 == 0) { d += '\0'; } if (v >> i & 1) { d[at / 8] = static_cast<char>(d[at / 8] | 1 << (at % 8)); } } }
};
static const double kLockMs[16] = {0, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144};

struct Ref
{
    // third and fourth generation: measurements that differential blocks refer to
    struct R { int id; int glo; double psr, phr, dop; bool okPsr, okPhr, okDop; };
    std::map<std::tuple<int, int, int, int>, R> refs; // source, system, satellite, signal
    struct L4 { int base = 0, last = 0; double t0 = 0; bool absolute = false; };
    std::map<std::tuple<int, int, int, int>, L4> lock4;
    std::map<std::tuple<int, int, int, int>, double> sat2; // when the lock time was first seen at its maximum
    bool poisoned = false; // a signal that has no meaning was seen; its history may be mixed with another's
    uint64_t skipped = 0, differential = 0, reference = 0, jumps = 0, outages = 0;
    void Reset() { *this = Ref(); }

    double Lock4(std::tuple<int, int, int, int> k, int bits, double now)
    {
        auto it = lock4.find(k);
        if (it == lock4.end()) { lock4[k] = {bits, bits, now, bits == 0}; return kLockMs[bits]; }
        L4& l = it->second;
        double ms = kLockMs[l.base] + now - l.t0;
        if (!l.absolute)
        {
            if (bits != l.last)
            {
                l.absolute = bits == 0 || bits > l.last; // the moment of the change is known now
                if (bits > l.last) { ++jumps; } else { ++outages; }
                l.base = bits;
                l.t0 = now;
            }
        }
        else if (bits < l.last || (bits < 15 && ms > kLockMs[bits + 1])) // lock was lost since
        {
            ++outages;
            l.absolute = false;
            l.base = bits;
            l.t0 = now;
        }
        l.last = bits;
        return kLockMs[l.base] + now - l.t0;
    }
    //! false: not a log of this kind. gen: 1, 2, 4 or 5. src: 0 or 1.
    bool Decode(int gen, std::string_view b, int src, double now, double second, std::vector<Obs>& out, bool& unspec)
    {
        out.clear();
        unspec = false;
        if (b.size() < 4) { return false; }
        uint32_t n = static_cast<uint32_t>(RdLE(b, 0, 4));
        b = b.substr(4);
        bool ok = gen == 1 ? One(b, n, out, unspec) : n > b.size() ? false : gen == 2 ? Two(b.substr(0, n), src, now, out, unspec) : Four(gen, b.substr(0, n), src, now, second, out, unspec);
        return ok && out.size() <= 325;
    }
    bool One(std::string_view b, uint32_t n, std::vector<Obs>& out, bool& unspec)
    {
        static const double std1[16] = {0.050, 0.075, 0.113, 0.169, 0.253, 0.380, 0.570, 0.854, 1.281, 2.375, 4.750, 9.500, 19.0, 38.0, 76.0, 152.0};
        if (n > 325 || static_cast<uint64_t>(n) * 24 > b.size()) { return false; }
        for (uint32_t i = 0; i < n; ++i)
        {
            Bits x{b.substr(i * 24, 24)};
            Obs o;
            o.cts = static_cast<uint32_t>(x.Get(32));
            o.dop = static_cast<double>(x.GetS(28)) / 256;
            o.psr = static_cast<double>(x.Get(36)) / 128;
            double adr = static_cast<double>(x.Get(32)) / 256;
            o.psrStd = std1[x.Get(4)];
            o.adrStd = (static_cast<double>(x.Get(4)) + 1) / 512;
            o.prn = static_cast<int>(x.Get(8));
            o.lock = static_cast<double>(x.Get(21)) / 32;
            o.cno = static_cast<double>(x.Get(5)) + 20;
            o.glo = static_cast<int>(x.Get(6));
            const Sig* s = FromCts(o.cts);
            double w = Wave(s, o.glo);
            if (w == 0) { o.uAdr = true; if (s) { unspec = true; } }
            else
            {
                double rolls = (o.psr / w + adr) / 8388608;
                double down = std::floor(rolls);
                if (std::fabs(rolls - down - 0.5) < 1e-9) { o.uAdr = true; }
                o.adr = adr - 8388608 * (rolls - down >= 0.5 ? down + 1 : down);
            }
            out.push_back(o);
        }
        return true;
    }
    bool Two(std::string_view b, int src, double now, std::vector<Obs>& out, bool& unspec)
    {
        static const double psrStd[16] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 5.409};
        static const double adrStd[16] = {0.00391, 0.00521, 0.00696, 0.00929, 0.01239, 0.01654, 0.02208, 0.02947, 0.03933, 0.05249, 0.07006, 0.09350, 0.12480, 0.16656, 0.22230, 0.22230};
        for (size_t at = 0; at < b.size();)
        {
            if (b.size() - at < 10) { return false; }
            Bits s{b.substr(at, 10)};
            at += 10;
            uint32_t ch = static_cast<uint32_t>(s.Get(8)), id = static_cast<uint32_t>(s.Get(8));
            int glo = static_cast<int>(s.Get(4)), sys = static_cast<int>(s.Get(5));
            (void)s.Get(1);
            double psrBase = static_cast<double>(s.GetS(29)), dopBase = static_cast<double>(s.GetS(21));
            int nSig = static_cast<int>(s.Get(4));
            for (int k = 0; k < nSig; ++k)
            {
                if (b.size() - at < 12) { return false; }
                Bits g{b.substr(at, 12)};
                at += 12;
                int type = static_cast<int>(g.Get(5));
                bool phase = g.Get(1), parity = g.Get(1), code = g.Get(1);
                int lock = static_cast<int>(g.Get(17)), corr = static_cast<int>(g.Get(4));
                bool primary = g.Get(1), half = g.Get(1);
                (void)g.Get(1);
                Obs o;
                o.cno = static_cast<double>(g.Get(5)) + 20;
                o.psrStd = psrStd[g.Get(4)];
                o.adrStd = adrStd[g.Get(4)];
                o.psr = psrBase + static_cast<double>(g.Get(14)) / 128;
                double phr = psrBase + static_cast<double>(g.Get(20)) / 2048;
                double dop = dopBase + static_cast<double>(g.GetS(17)) / 256;
                const Sig* sig = Find(2, sys, type);
                o.prn = static_cast<int>(id) + (sys == 1 ? 37 : 0);
                o.glo = glo;
                o.cts = (primary ? 4U : 11U) | (ch & 31) << 5 | (phase ? 0x400U : 0) | (parity ? 0x800U : 0) | (code ? 0x1000U : 0) | static_cast<uint32_t>(corr & 7) << 13 | static_cast<uint32_t>(CtsSys(sys)) << 16 | (nSig > 1 ? 0x100000U : 0) |
                        (sig ? static_cast<uint32_t>(sig->cts) << 21 : 0) | (primary ? 0x08000000U : 0) | (half ? 0x10000000U : 0);
                double w = Wave(sig, glo);
                if (w == 0) { o.uAdr = true; }
                else { o.adr = -phr / w; }
                if (!sig) { o.uDop = true; o.ctsMask &= ~(31U << 21); poisoned = true; }
                else { o.dop = dop / sig->scale; }
                auto key = std::make_tuple(src, sys, static_cast<int>(id), type);
                o.lock = lock / 1000.0;
                if (lock == 131071)
                {
                    auto it = sat2.find(key);
                    if (it == sat2.end()) { sat2[key] = now; }
                    else { o.lock += (now - it->second) / 1000; }
                }
                else { sat2.erase(key); }
                o.uLock = poisoned;
                o.key = {sys, static_cast<int>(id), type};
                o.lockBits = lock;
                out.push_back(o);
                if (out.size() > 325) { return false; }
            }
        }
        (void)unspec;
        return true;
    }
    bool Four(int gen, std::string_view b, int src, double now, double second, std::vector<Obs>& out, bool& unspec)
    {
        static const double psr4[16] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 5.409};
        static const double adr4[16] = {0.003, 0.005, 0.007, 0.009, 0.012, 0.016, 0.022, 0.029, 0.039, 0.052, 0.070, 0.093, 0.124, 0.166, 0.222, 0.222};
        static const double psr5[32] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 6.876, 8.741, 11.111, 14.125, 17.957, 22.828, 29.020, 36.891, 46.898, 59.619, 75.791, 96.349, 122.484, 155.707, 197.943, 251.634, 251.634};
        static const double adr5[32] = {0.00391, 0.00458, 0.00536, 0.00628, 0.00735, 0.00861, 0.01001, 0.01182, 0.01385, 0.01621, 0.01900, 0.02223, 0.02607, 0.03054, 0.03577, 0.04190, 0.04908, 0.05749, 0.06734, 0.07889, 0.09240, 0.10824, 0.12679, 0.14851, 0.17396, 0.20378, 0.23870, 0.27961, 0.32753, 0.38366, 0.44940, 0.44940};
        if (gen == 4 && second == 0) { for (auto it = refs.begin(); it != refs.end();) { it = std::get<0>(it->first) == src ? refs.erase(it) : std::next(it); } }
        Bits x{b};
        uint64_t systems = x.Get(16);
        if (x.bad) { return false; }
        for (int sys = 0; sys < 16; ++sys)
        {
            if (!(systems >> sys & 1)) { continue; }
            uint64_t sats = x.Get(64), sigs = x.Get(16);
            std::vector<int> sl;
            for (int i = 0; i < 16; ++i) { if (sigs >> i & 1) { sl.push_back(i); } }
            std::vector<std::pair<int, uint64_t>> sat; // satellite, included signals
            for (int i = 0; i < 64 && !x.bad; ++i) { if (sats >> i & 1) { sat.push_back({i + 1, sl.empty() ? 0 : x.Get(static_cast<int>(sl.size()))}); } }
            if (x.bad) { return false; }
            for (auto& [prn, inc] : sat)
            {
                bool diff = x.Get(1);
                int refId = static_cast<int>(x.Get(3)), glo = 0;
                if (sys == 1 && !(gen == 4 && diff)) { glo = static_cast<int>(x.Get(5)); }
                if (gen == 5) { diff = false; }
                double pPsr = 0, pDop = 0;
                bool pOkPsr = true, pOkDop = true;
                bool first = true;
                int count = 0;
                size_t from = out.size();
                for (size_t k = 0; k < sl.size(); ++k)
                {
                    if (!(inc >> k & 1)) { continue; }
                    ++count;
                    const bool secondary = !first;
                    first = false;
                    const int type = sl[k];
                    bool parity = x.Get(1), half = x.Get(1);
                    Obs o;
                    o.cno = static_cast<double>(x.Get(11)) * 0.05;
                    int lock = static_cast<int>(x.Get(4));
                    o.psrStd = gen == 5 ? psr5[x.Get(5)] : psr4[x.Get(4)];
                    o.adrStd = gen == 5 ? adr5[x.Get(5)] : adr4[x.Get(4)];
                    bool okPsr, okPhr, okDop, dPsr = true, dPhr = true, dDop = true; // present; determined
                    double psr, phr, dop;
                    auto key = std::make_tuple(src, sys, prn, type);
                    int g = glo;
                    bool have = true;
                    if (diff)
                    {
                        int nd = secondary ? 14 : 18;
                        int64_t rp = x.GetS(19), rh = x.GetS(16), rd = x.GetS(nd);
                        if (x.bad) { return false; }
                        auto it = refs.find(key);
                        have = it != refs.end() && it->second.id == refId;
                        if (have)
                        {
                            const R& r = it->second;
                            okPsr = rp != -(1 << 18);
                            okPhr = rh != -(1 << 15);
                            okDop = rd != -(1 << (nd - 1));
                            psr = r.psr + r.dop * second + static_cast<double>(rp) * 0.0005;
                            phr = r.phr + r.dop * second + static_cast<double>(rh) * 0.0001;
                            dop = r.dop + static_cast<double>(rd) * 0.0001;
                            dPsr = r.okPsr && r.okDop;
                            dPhr = r.okPhr && r.okDop;
                            dDop = r.okDop;
                            g = r.glo;
                            ++differential;
                        }
                        else { ++skipped; continue; } // nothing to add it to
                    }
                    else
                    {
                        ++reference;
                        int nd = gen == 5 ? (secondary ? 16 : 28) : (secondary ? 14 : 26);
                        int64_t rp = secondary ? x.GetS(20) : static_cast<int64_t>(x.Get(37));
                        int64_t rh = x.GetS(23), rd = x.GetS(nd);
                        if (x.bad) { return false; }
                        okPsr = secondary ? rp != -(1 << 19) : rp != 137438953471LL;
                        okPhr = rh != -(1 << 22);
                        okDop = rd != -(1LL << (nd - 1));
                        psr = static_cast<double>(rp) * 0.0005 + (secondary ? pPsr : 0);
                        phr = static_cast<double>(rh) * 0.0001 + psr;
                        dop = static_cast<double>(rd) * 0.0001 + (secondary ? pDop : 0);
                        dPsr = !secondary || pOkPsr;
                        dPhr = okPsr && dPsr;
                        dDop = !secondary || pOkDop;
                        if (!secondary) { pPsr = psr; pDop = dop; pOkPsr = okPsr; pOkDop = okDop; }
                        if (gen == 4) { refs[key] = {refId, glo, psr, phr, dop, okPsr && dPsr, okPhr && dPhr, okDop && dDop}; }
                    }
                    const Sig* s = Find(gen, sys, type);
                    double w = Wave(s, g);
                    if (s && w == 0) { unspec = true; } // a frequency that does not exist
                    if (!s && sys == 1 && g > 20) { unspec = true; }
                    if (!s) { poisoned = true; o.ctsMask &= ~(31U << 21); o.uAdr = o.uDop = true; }
                    if (!s || sys == 9) { o.ctsMask &= ~0x0800001FU; }
                    o.glo = g;
                    switch (sys)
                    {
                    case 1: o.prn = prn >= 43 ? 0 : prn + 37; break;
                    case 2: o.prn = prn <= 39 ? prn + 119 : prn >= 54 && prn <= 62 ? prn + 129 : 0; if (!o.prn) { unspec = true; } break;
                    case 7: o.prn = prn + 192; break;
                    default: o.prn = prn;
                    }
                    o.psr = okPsr ? psr : NAN;
                    o.adr = okPhr ? (w != 0 ? -phr / w : 0) : NAN;
                    o.dop = okDop ? (w != 0 ? -dop / w : 0) : NAN;
                    o.uPsr = okPsr && !dPsr;
                    o.uAdr |= okPhr && !dPhr;
                    o.uDop |= okDop && !dDop;
                    o.cts = (s && s->primary ? 0x08000004U : 11U) | (okPhr ? 0x400U : 0) | (parity ? 0x800U : 0) | (okPsr ? 0x1000U : 0) | static_cast<uint32_t>(CtsSys(sys)) << 16 | (s ? static_cast<uint32_t>(s->cts) << 21 : 0) | (half ? 0x10000000U : 0);
                    o.lock = Lock4(key, lock, now) / 1000;
                    o.uLock = poisoned;
                    o.key = {sys, prn, type};
                    o.lockBits = lock;
                    out.push_back(o);
                    if (out.size() > 325) { return false; }
                }
                // signals of one satellite that belong together
                if (count > 1)
                {
                    if (static_cast<int>(out.size() - from) == count) { for (size_t i = from; i < out.size(); ++i) { out[i].cts |= 0x100000; } }
                    else { for (size_t i = from; i < out.size(); ++i) { out[i].ctsMask &= ~0x100000U; } }
                }
            }
        }
        return !x.bad;
    }
};
} // namespace rr
