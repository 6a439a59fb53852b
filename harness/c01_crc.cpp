// C01: every CRC routine against a bit-serial remainder, over lengths, alignments, splits and overloads.
#include "vt.hpp"
#include <novatel_edie/common/crc.hpp>
#include <novatel_edie/decoders/oem/crc.hpp>
#include <memory>
VT_MAIN()
using namespace novatel::edie;

template <typename T, T Poly, bool Rev> static T Bitwise(const unsigned char* p, size_t n, T crc)
{
    constexpr int W = sizeof(T) * 8;
    for (size_t i = 0; i < n; ++i)
    {
        for (int b = 0; b < 8; ++b)
        {
            const int inBit = Rev ? (p[i] >> b) & 1 : (p[i] >> (7 - b)) & 1;
            const int outBit = Rev ? static_cast<int>(crc & 1) : static_cast<int>((crc >> (W - 1)) & 1);
            crc = Rev ? static_cast<T>(crc >> 1) : static_cast<T>(crc << 1);
            if (inBit ^ outBit) { crc = static_cast<T>(crc ^ Poly); }
        }
    }
    return crc;
}

// An exactly sized heap block at a chosen misalignment, so that ASan sees any access outside it.
struct Block
{
    std::unique_ptr<unsigned char[]> mem;
    unsigned char* p;
    size_t n;
    Block(vt::Rng& r, size_t len, size_t mis) : mem(new unsigned char[len + mis]), p(mem.get() + mis), n(len)
    {
        const auto mode = r.Below(5);
        for (size_t i = 0; i < n; ++i)
        {
            p[i] = mode == 0 ? 0 : mode == 1 ? 0xFF : mode == 2 ? static_cast<unsigned char>(i == n / 2) : static_cast<unsigned char>(r.Next());
        }
    }
};

static size_t Len(vt::Rng& r)
{
    switch (r.Below(6))
    {
    case 0: return r.Below(20);
    case 1: return r.Below(130);
    case 2: return 40 + r.Below(30);
    case 3: return 8 * r.Below(40) + r.Below(2);
    case 4: return r.Below(2000);
    default: return r.Chance(0.02) ? 60000 + r.Below(10000) : r.Below(400);
    }
}

template <typename T, T Poly, bool Rev> static void One(vt::Rng& r, const char* name)
{
    Block b(r, Len(r), r.Below(9));
    T init = r.Chance(0.4) ? T(0) : r.Chance(0.3) ? static_cast<T>(~T(0)) : static_cast<T>(r.Next());
    const T ref = Bitwise<T, Poly, Rev>(b.p, b.n, init);
    const T blk = CalculateBlockCrc<T, Poly, Rev>(b.p, static_cast<uint32_t>(b.n), init);
    VT_CHECK(blk == ref, std::string("block:") + name, "len " << b.n << " got " << std::hex << +blk << " want " << +ref << " data " << vt::Hex({(char*)b.p, b.n}));
    const T sv = CalculateBlockCrc<T, Poly, Rev>(std::string_view((char*)b.p, b.n), init);
    VT_CHECK(sv == ref, std::string("string:") + name, "len " << b.n);
    T ch = init;
    for (size_t i = 0; i < b.n; ++i) { CalculateCharacterCrc<T, Poly, Rev>(ch, b.p[i]); }
    VT_CHECK(ch == ref, std::string("char:") + name, "len " << b.n);
    // arbitrary split, mixing the overloads
    T inc = init;
    size_t at = 0;
    while (at < b.n)
    {
        size_t k = 1 + r.Below(std::min<size_t>(b.n - at, 70));
        switch (r.Below(3))
        {
        case 0: inc = CalculateBlockCrc<T, Poly, Rev>(b.p + at, static_cast<uint32_t>(k), inc); break;
        case 1: inc = CalculateBlockCrc<T, Poly, Rev>(std::string_view((char*)b.p + at, k), inc); break;
        default:
            for (size_t j = 0; j < k; ++j) { CalculateCharacterCrc<T, Poly, Rev>(inc, b.p[at + j]); }
        }
        at += k;
    }
    VT_CHECK(inc == ref, std::string("split:") + name, "len " << b.n);
    vt::Eval(4);
    vt::Count(name);
    vt::Count("bytes", b.n);
    if (b.n > 1) { vt::Distinct(vt::HashBytes(b.p, b.n, vt::HashStr(name) ^ init)); }
    if (b.n > 10 && b.n < 60) { vt::Sample(std::string(name) + " len " + std::to_string(b.n) + " " + vt::Hex({(char*)b.p, b.n})); }
}

VT_SUITE(generic)
{
    One<uint8_t, 0x2F, false>(rng, "crc8-autosar-f");
    One<uint8_t, 0xF4, true>(rng, "crc8-autosar-r");
    One<uint8_t, 0x07, false>(rng, "crc8-atm-f");
    One<uint8_t, 0xE0, true>(rng, "crc8-atm-r");
    One<uint16_t, 0x1021, false>(rng, "crc16-ccitt-f");
    One<uint16_t, 0x8408, true>(rng, "crc16-ccitt-r");
    One<uint16_t, 0xA001, true>(rng, "crc16-arc-r");
    One<uint32_t, 0x04C11DB7, false>(rng, "crc32-f");
    One<uint32_t, 0xEDB88320, true>(rng, "crc32-r");
    One<uint32_t, 0x741B8CD7, false>(rng, "crc32-koopman-f");
    One<uint32_t, 0xEB31D82E, true>(rng, "crc32-koopman-r");
    One<uint64_t, 0x42F0E1EBA9EA3693ULL, false>(rng, "crc64-ecma-f");
    One<uint64_t, 0xC96C5795D7870F42ULL, true>(rng, "crc64-ecma-r");
}

VT_SUITE(oem)
{
    constexpr uint32_t P = 0xEDB88320UL;
    Block b(rng, Len(rng), rng.Below(9));
    uint32_t init = rng.Chance(0.5) ? 0 : static_cast<uint32_t>(rng.Next());
    const uint32_t ref = Bitwise<uint32_t, P, true>(b.p, b.n, init);
    const uint32_t ref0 = Bitwise<uint32_t, P, true>(b.p, b.n, 0);
    VT_CHECK(oem::CalculateBlockCrc32(b.p, static_cast<uint32_t>(b.n), init) == ref, "oem-block", "len " << b.n << " init " << init << " data " << vt::Hex({(char*)b.p, b.n}));
    VT_CHECK(oem::CalculateBlockCrc32(std::string_view((char*)b.p, b.n)) == ref0, "oem-string", "len " << b.n);
    VT_CHECK(CalculateBlockCrc32(b.p, static_cast<uint32_t>(b.n), init) == ref, "crc32-block", "len " << b.n);
    VT_CHECK(CalculateBlockCrc32(std::string_view((char*)b.p, b.n)) == ref0, "crc32-string", "len " << b.n);
    uint32_t c = init, c2 = init;
    for (size_t i = 0; i < b.n; ++i) { oem::CalculateCharacterCrc32(c, b.p[i]); CalculateCharacterCrc32(c2, b.p[i]); }
    VT_CHECK(c == ref && c2 == ref, "oem-char", "len " << b.n);
    uint32_t inc = init;
    size_t at = 0;
    while (at < b.n)
    {
        size_t k = 1 + rng.Below(std::min<size_t>(b.n - at, 300));
        if (rng.Chance(0.2)) { for (size_t j = 0; j < k; ++j) { oem::CalculateCharacterCrc32(inc, b.p[at + j]); } }
        else { inc = oem::CalculateBlockCrc32(b.p + at, static_cast<uint32_t>(k), inc); }
        at += k;
    }
    VT_CHECK(inc == ref, "oem-split", "len " << b.n);
    // A message followed by its own (little-endian) CRC has remainder zero: the framer's acceptance test.
    std::string m(reinterpret_cast<char*>(b.p), b.n);
    for (int i = 0; i < 4; ++i) { m += static_cast<char>(ref0 >> (8 * i)); }
    VT_CHECK(oem::CalculateBlockCrc32(reinterpret_cast<const unsigned char*>(m.data()), static_cast<uint32_t>(m.size())) == 0, "oem-residue", "len " << b.n);
    vt::Eval(7);
    vt::Count(b.n > 48 ? "oem-long" : "oem-short");
    if (b.n > 1) { vt::Distinct(vt::HashBytes(b.p, b.n, init)); }
    if (b.n > 48 && b.n < 80) { vt::Sample("oem len " + std::to_string(b.n) + " " + vt::Hex({(char*)b.p, b.n})); }
}

// Every length 0..600 at every alignment 0..7, single-bit inputs at every position: exhaustive around the block-size thresholds.
VT_SUITE(lengths)
{
    const size_t n = vt::S().caseId % 601;
    for (size_t mis = 0; mis < 8; ++mis)
    {
        Block b(rng, n, mis);
        uint32_t init = static_cast<uint32_t>(rng.Next());
        VT_CHECK(oem::CalculateBlockCrc32(b.p, static_cast<uint32_t>(n), init) == (Bitwise<uint32_t, 0xEDB88320UL, true>(b.p, n, init)), "oem-len", "len " << n << " mis " << mis);
        VT_CHECK((CalculateBlockCrc<uint64_t, 0x42F0E1EBA9EA3693ULL, false>(b.p, static_cast<uint32_t>(n), init)) == (Bitwise<uint64_t, 0x42F0E1EBA9EA3693ULL, false>(b.p, n, init)), "crc64-len", "len " << n);
        VT_CHECK((CalculateBlockCrc<uint16_t, 0x1021, false>(b.p, static_cast<uint32_t>(n), static_cast<uint16_t>(init))) == (Bitwise<uint16_t, 0x1021, false>(b.p, n, static_cast<uint16_t>(init))), "crc16-len", "len " << n);
        vt::Eval(3);
        vt::Distinct(vt::HashBytes(b.p, n, mis));
    }
    if (n > 0 && n < 140)
    {
        std::vector<unsigned char> z(n);
        for (size_t bit = 0; bit < n * 8; ++bit)
        {
            z[bit / 8] = static_cast<unsigned char>(1u << (bit % 8));
            VT_CHECK(oem::CalculateBlockCrc32(z.data(), static_cast<uint32_t>(n)) == (Bitwise<uint32_t, 0xEDB88320UL, true>(z.data(), n, 0)), "oem-bit", "len " << n << " bit " << bit);
            z[bit / 8] = 0;
            vt::Eval();
        }
    }
}
