// C02: FixedBuffer against a std::deque model, operation by operation.
#include "vt.hpp"
#include <deque>
#include <memory>
#include <novatel_edie/common/fixed_buffer.hpp>
VT_MAIN()

template <size_t M> static size_t ModelSearch(const std::deque<unsigned char>& d, const std::array<unsigned char, M>& v, size_t start, size_t count)
{
    if (start >= d.size()) { return static_cast<size_t>(-1); }
    size_t end = count > d.size() - start ? d.size() : start + count;
    for (size_t p = start; p < end; ++p)
    {
        size_t k = 0;
        while (k < M && p + k < end && d[p + k] == v[k]) { ++k; }
        if (k == M || p + k == end) { return p; } // whole pattern, or a non-empty prefix running into the boundary
    }
    return static_cast<size_t>(-1);
}

template <typename T> static T Val(vt::Rng& r, unsigned alpha) { return static_cast<T>(alpha ? r.Below(alpha) : r.Next()); }

template <typename T> static void Run(vt::Rng& rng, const char* tname)
{
    const size_t cap = rng.Chance(0.1) ? rng.Below(4) : rng.Chance(0.02) ? 5000 : 1 + rng.Below(100);
    FixedBuffer<T> fb(cap);
    std::deque<T> m;
    const unsigned alpha = rng.Chance(0.7) ? 3 : 0;
    const int ops = static_cast<int>(20 + rng.Below(200));
    std::string trace = std::string(tname) + " cap " + std::to_string(cap) + ":";
    uint64_t th = cap;
    const int drain = static_cast<int>(rng.Below(3)); // bias: keep full, balanced, keep empty
    for (int op = 0; op < ops; ++op)
    {
        const auto what = rng.Below(10);
        if (what < 4)
        {
            size_t k = rng.Chance(0.15) ? cap - m.size() + rng.Below(3) : rng.Chance(0.1) ? cap - m.size() : rng.Below(std::max<size_t>(cap / (drain == 0 ? 2 : 6), 1) + 2);
            std::unique_ptr<T[]> src(new T[k]);
            for (size_t i = 0; i < k; ++i) { src[i] = Val<T>(rng, alpha); }
            size_t got = fb.write(rng.Chance(0.02) ? nullptr : src.get(), 0);
            VT_CHECK(got == 0, "write0", trace);
            got = fb.write(src.get(), k);
            const size_t want = k <= cap - m.size() ? k : 0;
            trace += " w" + std::to_string(k);
            VT_CHECK(got == want, "write-result", trace << " got " << got << " want " << want);
            if (want) { m.insert(m.end(), src.get(), src.get() + k); vt::Count("write-stored"); }
            else { vt::Count("write-refused"); }
            VT_CHECK(fb.write(nullptr, 1) == 0, "write-null", trace);
        }
        else if (what < 7)
        {
            size_t k = rng.Chance(0.1) ? m.size() + rng.Below(3) : rng.Chance(0.03) ? static_cast<size_t>(-1) : rng.Below(std::max<size_t>(m.size() / (drain == 2 ? 1 : 4), 1) + 2);
            fb.erase_begin(k);
            trace += " e" + std::to_string(k);
            m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(std::min(k, m.size())));
            vt::Count("erase");
        }
        else if (what == 7)
        {
            const size_t k = rng.Below(m.size() + 4);
            std::unique_ptr<T[]> dst(new T[std::min(k, m.size()) + 1]); // copy_out clamps to what is stored
            dst[std::min(k, m.size())] = T(0x5A);
            fb.copy_out(dst.get(), k);
            for (size_t i = 0; i < std::min(k, m.size()); ++i) { VT_CHECK(dst[i] == m[i], "copy-out", trace << " c" << k << " at " << i); }
            VT_CHECK(dst[std::min(k, m.size())] == T(0x5A), "copy-out-excess", trace);
            fb.copy_out(nullptr, k);
            vt::Count("copy");
        }
        else if (what == 8)
        {
            if constexpr (std::is_same_v<T, unsigned char>)
            {
                const size_t start = rng.Below(m.size() + 2), count = rng.Chance(0.3) ? static_cast<size_t>(-1) : rng.Below(m.size() + 3);
                std::array<unsigned char, 1> a1{Val<T>(rng, alpha)};
                std::array<unsigned char, 2> a2{Val<T>(rng, alpha), Val<T>(rng, alpha)};
                std::array<unsigned char, 3> a3{Val<T>(rng, alpha), Val<T>(rng, alpha), Val<T>(rng, alpha)};
                VT_CHECK(fb.search_char(a1[0], start, count) == ModelSearch(m, a1, start, count), "search1", trace << " start " << start << " count " << count);
                VT_CHECK(fb.search_chars(a2, start, count) == ModelSearch(m, a2, start, count), "search2", trace << " start " << start << " count " << count);
                VT_CHECK(fb.search_chars(a3, start, count) == ModelSearch(m, a3, start, count), "search3", trace << " start " << start << " count " << count);
                if (ModelSearch(m, a3, start, count) != static_cast<size_t>(-1)) { vt::Count("search-hit"); }
                else { vt::Count("search-miss"); }
            }
        }
        else if (m.size() >= 4 && sizeof(T) == 1)
        {
            const size_t at = rng.Below(m.size() - 3);
            uint32_t v = 0;
            for (int i = 3; i >= 0; --i) { v = (v << 8) | static_cast<unsigned char>(m[at + static_cast<size_t>(i)]); }
            if constexpr (sizeof(T) == 1)
            {
                VT_CHECK(fb.template read_value<uint32_t>(at) == v, "read-value32", trace << " at " << at);
                VT_CHECK(fb.template read_value<uint16_t>(at) == static_cast<uint16_t>(v), "read-value16", trace << " at " << at);
            }
            vt::Count("read");
        }
        VT_CHECK(fb.size() == m.size(), "size", trace << " got " << fb.size() << " want " << m.size());
        VT_CHECK(fb.available_space() == cap - m.size(), "available", trace);
        VT_CHECK(fb.capacity() == cap, "capacity", trace);
        VT_CHECK(fb.empty() == m.empty() && fb.full() == (m.size() == cap), "empty-full", trace);
        const FixedBuffer<T>& cfb = fb;
        for (size_t i = 0; i < m.size(); ++i) { VT_CHECK(cfb[i] == m[i] && fb.data()[i] == m[i], "content", trace << " at " << i << " of " << m.size()); }
        th = vt::Mix(th * 31 + what * 1000003 + m.size());
        vt::Eval();
    }
    if (rng.Chance(0.2) && !m.empty())
    {
        size_t i = rng.Below(m.size());
        fb[i] = m[i] = Val<T>(rng, 0);
        for (size_t k = 0; k < m.size(); ++k) { VT_CHECK(fb[k] == m[k], "assign", trace); }
    }
    vt::Distinct(th);
    vt::Sample(trace);
}
VT_SUITE(history)
{
    Run<unsigned char>(rng, "uchar");
    if (rng.Chance(0.2)) { Run<uint32_t>(rng, "u32"); }
    if (rng.Chance(0.1)) { Run<uint64_t>(rng, "u64"); }
}
