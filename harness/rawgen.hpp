// Independent generators and validators for raw message frames (no library code is used here).
#pragma once
#include "vt.hpp"
#include <cstdio>
#include <optional>

namespace raw {

enum class F { Ascii, ShortAscii, Abb, AbbResp, Bin, ShortBin, PropBin, Nmea, Json, Unknown };
inline const char* Name(F f)
{
    static const char* n[] = {"ASCII", "SHORT_ASCII", "ABB_ASCII", "ABB_RESPONSE", "BINARY", "SHORT_BINARY", "PROPRIETARY_BINARY", "NMEA", "JSON", "UNKNOWN"};
    return n[static_cast<int>(f)];
}

inline uint32_t Crc32(std::string_view s, uint32_t crc = 0) // bit-serial reference
{
    for (unsigned char c : s)
    {
        crc ^= c;
        for (int i = 0; i < 8; ++i) { crc = (crc & 1) ? (crc >> 1) ^ 0xEDB88320U : crc >> 1; }
    }
    return crc;
}
inline std::string Hex8(uint32_t v, bool upper = false)
{
    char t[9];
    snprintf(t, sizeof t, upper ? "%08X" : "%08x", v);
    return t;
}
inline std::string LE(uint64_t v, int n)
{
    std::string r;
    for (int i = 0; i < n; ++i) { r += static_cast<char>(v >> (8 * i)); }
    return r;
}
inline uint64_t RdLE(std::string_view s, size_t at, int n)
{
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) { v |= static_cast<uint64_t>(static_cast<unsigned char>(s[at + i])) << (8 * i); }
    return v;
}

inline std::string AsciiWrap(char sync, const std::string& inner, bool upper = false) { return sync + inner + "*" + Hex8(Crc32(inner), upper) + "\r\n"; }
inline std::string BinWrap(std::string body) { return body + LE(Crc32(body), 4); }
inline std::string BinHeader(char sync2, uint16_t id, uint8_t type, uint8_t port, uint16_t len, uint16_t seq, uint8_t idle, uint8_t ts, uint16_t week, uint32_t ms, uint32_t stat, uint16_t defcrc, uint16_t sw)
{
    std::string h;
    h += static_cast<char>(0xAA);
    h += sync2;
    h += static_cast<char>(0x12);
    h += static_cast<char>(28);
    return h + LE(id, 2) + LE(type, 1) + LE(port, 1) + LE(len, 2) + LE(seq, 2) + LE(idle, 1) + LE(ts, 1) + LE(week, 2) + LE(ms, 4) + LE(stat, 4) + LE(defcrc, 2) + LE(sw, 2);
}
inline std::string NmeaWrap(const std::string& inner, bool upper = true)
{
    unsigned char x = 0;
    for (unsigned char c : inner) { x ^= c; }
    char t[8];
    snprintf(t, sizeof t, upper ? "%02X" : "%02x", x);
    return "$" + inner + "*" + t + "\r\n";
}

inline bool IsHex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }

//! Why the frame is not one valid message of the format ("" if it is).
//! `lenientShort`: the all-format framer also takes AA 45 13 as a short header (the format does not rule it out).
inline std::string Invalid(F f, std::string_view m, bool lenientShort = false)
{
    auto ends = [&](size_t n) { return m.size() >= n && m[m.size() - 2] == '\r' && m[m.size() - 1] == '\n'; };
    switch (f)
    {
    case F::Ascii:
    case F::ShortAscii: {
        if (m.size() < 12 || m[0] != (f == F::Ascii ? '#' : '%')) { return "sync"; }
        if (!ends(2)) { return "crlf"; }
        if (m[m.size() - 11] != '*') { return "crc delimiter"; }
        for (size_t i = m.size() - 10; i < m.size() - 2; ++i)
        {
            if (!IsHex(m[i])) { return "crc digits"; }
        }
        auto c = static_cast<uint32_t>(std::stoul(std::string(m.substr(m.size() - 10, 8)), nullptr, 16));
        return c == Crc32(m.substr(1, m.size() - 12)) ? "" : "crc";
    }
    case F::Nmea: {
        if (m.size() < 6 || m[0] != '$') { return "sync"; }
        if (!ends(2)) { return "crlf"; }
        size_t star = m.find('*');
        if (star == std::string_view::npos || star != m.size() - 5) { return "crc delimiter"; }
        if (!IsHex(m[star + 1]) || !IsHex(m[star + 2])) { return "crc digits"; }
        unsigned x = 0;
        for (size_t i = 1; i < star; ++i) { x ^= static_cast<unsigned char>(m[i]); }
        return x == std::stoul(std::string(m.substr(star + 1, 2)), nullptr, 16) ? "" : "crc";
    }
    case F::Bin:
    case F::PropBin:
    case F::ShortBin: {
        const size_t hl = f == F::ShortBin ? 12 : 28;
        if (m.size() < hl + 4) { return "length"; }
        if (static_cast<unsigned char>(m[0]) != 0xAA || (m[1] != (f == F::PropBin ? 0x45 : 0x44) && !(lenientShort && f == F::ShortBin && m[1] == 0x45)) || m[2] != (f == F::ShortBin ? 0x13 : 0x12)) { return "sync"; }
        const size_t body = f == F::ShortBin ? static_cast<unsigned char>(m[3]) : RdLE(m, 8, 2);
        if (m.size() != hl + body + 4) { return "length"; }
        return RdLE(m, m.size() - 4, 4) == Crc32(m.substr(0, m.size() - 4)) ? "" : "crc";
    }
    case F::AbbResp: {
        if (m.size() < 5 || m[0] != '<') { return "sync"; }
        if (m.substr(1, 2) != "OK" && m.substr(1, 5) != "ERROR") { return "not a response"; }
        return ends(2) && m.find("\r\n") == m.size() - 2 ? "" : "crlf";
    }
    case F::Abb: {
        if (m.size() < 4 || m[0] != '<' || m[1] == ' ') { return "sync"; }
        if (m.substr(1, 2) == "OK" || m.substr(1, 5) == "ERROR") { return "response"; }
        if (!ends(2)) { return "crlf"; }
        size_t lines = 0;
        for (size_t p = 0; p < m.size();)
        {
            size_t e = m.find("\r\n", p);
            if (lines > 0 && (m[p] != '<' || p + 1 >= m.size() || m[p + 1] != ' ')) { return "body line"; }
            ++lines;
            p = e + 2;
        }
        return lines >= 2 ? "" : "no body";
    }
    case F::Json: {
        if (m.empty() || m[0] != '{') { return "sync"; }
        int depth = 0;
        for (size_t i = 0; i < m.size(); ++i)
        {
            if (m[i] == '{') { ++depth; }
            if (m[i] == '}') { --depth; }
            if (depth == 0) { return i + 1 == m.size() ? "" : "braces"; }
        }
        return "unbalanced";
    }
    default: return "unknown";
    }
}

struct Gen
{
    vt::Rng& r;
    explicit Gen(vt::Rng& g) : r(g) {}
    //! Printable text over an alphabet that leaves out `forbid` and CR/LF.
    std::string Text(size_t n, std::string_view forbid = "")
    {
        std::string s;
        while (s.size() < n)
        {
            char c = r.Chance(0.3) ? r.PickOf({'0', '9', ',', ';', '.', 'A', 'z', '"', '-', ' '}) : static_cast<char>(32 + r.Below(95));
            if (forbid.find(c) == std::string_view::npos) { s += c; }
        }
        return s;
    }
    std::string Ident(size_t n)
    {
        std::string s;
        for (size_t i = 0; i < n; ++i) { s += static_cast<char>(i == 0 || r.Chance(0.7) ? 'A' + r.Below(26) : '0' + r.Below(10)); }
        return s;
    }
    size_t BodyLen(size_t max) { return r.Chance(0.03) ? max - std::min<size_t>(max, r.Below(4)) : r.Chance(0.1) ? r.Below(std::min<size_t>(max, 3000) + 1) : r.Below(std::min<size_t>(max, 120) + 1); }
    std::string Make(F f, size_t max = 32768, std::string_view forbid = "")
    {
        switch (f)
        {
        case F::Ascii:
        case F::ShortAscii: {
            std::string in = Ident(1 + r.Below(12)) + (r.Chance(0.9) ? "A," : "") + Text(BodyLen(max - 60), std::string(forbid) + "*");
            if (r.Chance(0.15)) { in.resize(1 + r.Below(3)); } // tiny
            if (r.Chance(0.2) && forbid.find('*') == std::string_view::npos) // RXCONFIG-like embedded checksum, or a stray '*'
            {
                in.insert(1 + r.Below(in.size()), r.Chance(0.5) ? "*" + Hex8(static_cast<uint32_t>(r.Next())) : std::string(1 + r.Below(3), '*'));
            }
            if (r.Chance(0.1) && forbid.find('*') == std::string_view::npos) { in += "*" + Hex8(static_cast<uint32_t>(r.Next())); }
            return AsciiWrap(f == F::Ascii ? '#' : '%', in, r.Chance(0.2));
        }
        case F::Nmea: {
            std::string in = "GP" + Ident(3) + (r.Chance(0.15) ? "" : "," + Text(r.Chance(0.1) ? 256 - 12 - r.Below(3) - 0 : r.Below(70), std::string(forbid) + "*"));
            if (in.size() > 251) { in.resize(251); }
            return NmeaWrap(in, r.Chance(0.8));
        }
        case F::Bin:
        case F::PropBin: {
            size_t n = BodyLen(max - 32);
            std::string h = BinHeader(f == F::Bin ? 0x44 : 0x45, static_cast<uint16_t>(r.Next()), static_cast<uint8_t>(r.Next()), static_cast<uint8_t>(r.Next()), static_cast<uint16_t>(n), static_cast<uint16_t>(r.Next()), static_cast<uint8_t>(r.Next()), static_cast<uint8_t>(r.Next()),
                                      static_cast<uint16_t>(r.Next()), static_cast<uint32_t>(r.Next()), static_cast<uint32_t>(r.Next()), static_cast<uint16_t>(r.Next()), static_cast<uint16_t>(r.Next()));
            return BinWrap(h + Payload(n));
        }
        case F::ShortBin: {
            size_t n = std::min<size_t>(BodyLen(255), 255);
            std::string h = std::string("\xAA\x44\x13", 3) + static_cast<char>(n) + r.Bytes(8);
            return BinWrap(h + Payload(n));
        }
        case F::AbbResp: {
            std::string s = r.Chance(0.5) ? "<OK" : "<ERROR:" + Text(r.Below(60), forbid);
            return s + "\r\n";
        }
        case F::Abb: {
            std::string s;
            do { s = Ident(2 + r.Below(10)); } while (s.substr(0, 2) == "OK" || s.substr(0, 5) == "ERROR");
            s = "<" + s + " " + Text(r.Below(80), forbid) + "\r\n";
            for (size_t l = 1 + (r.Chance(0.5) ? 0 : r.Below(r.Chance(0.2) ? 40 : 5)); l > 0; --l) { s += "< " + std::string(r.Below(3) * 5, ' ') + Text(r.Below(60), std::string(forbid)) + "\r\n"; }
            return s;
        }
        case F::Json: {
            std::string s = "{\"header\": {" + Text(r.Below(60), std::string(forbid) + "{}") + "},\"body\": {";
            for (size_t k = r.Below(4); k > 0; --k) { s += Text(r.Below(30), std::string(forbid) + "{}") + "{" + Text(r.Below(8), std::string(forbid) + "{}") + "}"; }
            return s + "}}";
        }
        default: return "";
        }
    }
    std::string Payload(size_t n)
    {
        if (r.Chance(0.3) && n > 0) // dense in sync bytes
        {
            std::string s;
            for (size_t i = 0; i < n; ++i) { s += r.PickOf({'\xAA', '\x44', '\x12', '\x13', '\x45', '#', '%', '<', '$', '{', '*', '\r', '\n', ' ', 'O', 'K'}); }
            return s;
        }
        return r.Bytes(n);
    }
};
} // namespace raw
