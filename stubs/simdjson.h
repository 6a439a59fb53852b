// Offline stand-in for the subset of the simdjson DOM API that EDIE uses (simdjson is not installed here).
// Semantics follow simdjson 3.x's DOM: strict RFC 8259 grammar, UTF-8 validation, INT64/UINT64/DOUBLE tags,
// first-match object lookup, depth limit 1024, no trailing content. Elements refer into the parser that made them;
// like simdjson, a second parse() or the parser's destruction invalidates them (ASan sees a stale use).
#pragma once
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iterator>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace simdjson {
enum error_code { SUCCESS = 0, CAPACITY, MEMALLOC, TAPE_ERROR, DEPTH_ERROR, STRING_ERROR, NUMBER_ERROR, UTF8_ERROR, UNINITIALIZED, EMPTY,
    UNESCAPED_CHARS, UNCLOSED_STRING, INCORRECT_TYPE, NUMBER_OUT_OF_RANGE, INDEX_OUT_OF_BOUNDS, NO_SUCH_FIELD, IO_ERROR, BIGINT_ERROR };
inline const char* error_message(error_code e) noexcept
{
    static const char* const names[] = {"SUCCESS: No error", "CAPACITY", "MEMALLOC", "TAPE_ERROR: The JSON document has an improper structure", "DEPTH_ERROR", "STRING_ERROR",
        "NUMBER_ERROR", "UTF8_ERROR", "UNINITIALIZED", "EMPTY: no JSON found", "UNESCAPED_CHARS", "UNCLOSED_STRING", "INCORRECT_TYPE", "NUMBER_OUT_OF_RANGE",
        "INDEX_OUT_OF_BOUNDS", "NO_SUCH_FIELD", "IO_ERROR: Error reading the file.", "BIGINT_ERROR"};
    return names[static_cast<int>(e)];
}
inline std::ostream& operator<<(std::ostream& o, error_code e) { return o << error_message(e); }

class simdjson_error : public std::exception
{
    error_code e_;
  public:
    explicit simdjson_error(error_code e) : e_(e) {}
    const char* what() const noexcept override { return error_message(e_); }
    error_code error() const noexcept { return e_; }
};

namespace dom { class element; class array; class object; class parser; }

template <typename T> class simdjson_result
{
    T value_{};
    error_code err_ = UNINITIALIZED;
  public:
    simdjson_result() = default;
    simdjson_result(T v) : value_(std::move(v)), err_(SUCCESS) {}
    simdjson_result(error_code e) : err_(e) {}
    error_code error() const noexcept { return err_; }
    error_code get(T& out) noexcept
    {
        if (err_ == SUCCESS) { out = std::move(value_); }
        return err_;
    }
    template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T>>> error_code get(U& out) const noexcept
    {
        if (err_ != SUCCESS) { return err_; }
        return value_.get(out);
    }
    T& value() { if (err_ != SUCCESS) { throw simdjson_error(err_); } return value_; }
    operator T() { return value(); }
    template <typename K, typename E = dom::element> simdjson_result<E> operator[](const K& k) const
    {
        if (err_ != SUCCESS) { return err_; }
        return value_[std::string_view(k)];
    }
};

class padded_string
{
    std::string s_;
  public:
    padded_string() = default;
    padded_string(const char* d, size_t n) : s_(d, n) {}
    explicit padded_string(std::string_view v) : s_(v) {}
    padded_string(const std::string& v) : s_(v) {}
    size_t size() const { return s_.size(); }
    const char* data() const { return s_.data(); }
    operator std::string_view() const { return s_; }
    static simdjson_result<padded_string> load(const std::string& path)
    {
        std::ifstream f(path, std::ios::binary);
        if (!f) { return IO_ERROR; }
        std::string s;
        try { s.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
        catch (const std::exception&) { return IO_ERROR; } // a directory
        if (f.bad()) { return IO_ERROR; }
        return padded_string(s.data(), s.size());
    }
};

namespace dom {
enum class element_type { ARRAY = '[', OBJECT = '{', INT64 = 'l', UINT64 = 'u', DOUBLE = 'd', STRING = '"', BOOL = 't', NULL_VALUE = 'n' };

struct node
{
    element_type t = element_type::NULL_VALUE;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<node> kids;
    std::vector<std::string> keys;
};

class element
{
  protected:
    const node* n_ = nullptr;
  public:
    element() = default;
    explicit element(const node* n) : n_(n) {}
    element_type type() const { return n_->t; }
    bool is_null() const noexcept { return n_ && n_->t == element_type::NULL_VALUE; }
    bool is_string() const noexcept { return n_ && n_->t == element_type::STRING; }
    bool is_array() const noexcept { return n_ && n_->t == element_type::ARRAY; }
    bool is_object() const noexcept { return n_ && n_->t == element_type::OBJECT; }
    error_code get(element& o) const noexcept { if (!n_) { return UNINITIALIZED; } o = *this; return SUCCESS; }
    error_code get(std::string_view& o) const noexcept { if (!n_ || n_->t != element_type::STRING) { return INCORRECT_TYPE; } o = n_->s; return SUCCESS; }
    error_code get(bool& o) const noexcept { if (!n_ || n_->t != element_type::BOOL) { return INCORRECT_TYPE; } o = n_->b; return SUCCESS; }
    error_code get(double& o) const noexcept
    {
        if (!n_) { return INCORRECT_TYPE; }
        switch (n_->t)
        {
        case element_type::DOUBLE: o = n_->d; return SUCCESS;
        case element_type::INT64: o = static_cast<double>(n_->i); return SUCCESS;
        case element_type::UINT64: o = static_cast<double>(n_->u); return SUCCESS;
        default: return INCORRECT_TYPE;
        }
    }
    error_code get(int64_t& o) const noexcept
    {
        if (!n_) { return INCORRECT_TYPE; }
        if (n_->t == element_type::INT64) { o = n_->i; return SUCCESS; }
        if (n_->t == element_type::UINT64) { return NUMBER_OUT_OF_RANGE; }
        return INCORRECT_TYPE;
    }
    error_code get(uint64_t& o) const noexcept
    {
        if (!n_) { return INCORRECT_TYPE; }
        if (n_->t == element_type::UINT64) { o = n_->u; return SUCCESS; }
        if (n_->t == element_type::INT64)
        {
            if (n_->i < 0) { return NUMBER_OUT_OF_RANGE; }
            o = static_cast<uint64_t>(n_->i);
            return SUCCESS;
        }
        return INCORRECT_TYPE;
    }
    error_code get(array& o) const noexcept;
    error_code get(object& o) const noexcept;
    template <typename T> simdjson_result<T> get() const noexcept
    {
        T v{};
        error_code e = get(v);
        if (e) { return e; }
        return v;
    }
    simdjson_result<element> at_key(std::string_view k) const noexcept
    {
        if (!n_ || n_->t != element_type::OBJECT) { return INCORRECT_TYPE; }
        for (size_t x = 0; x < n_->keys.size(); ++x)
        {
            if (n_->keys[x] == k) { return element(&n_->kids[x]); }
        }
        return NO_SUCH_FIELD;
    }
    simdjson_result<element> operator[](std::string_view k) const noexcept { return at_key(k); }
    simdjson_result<element> operator[](const char* k) const noexcept { return at_key(k); }
};

class array
{
    const node* n_ = nullptr;
  public:
    array() = default;
    explicit array(const node* n) : n_(n) {}
    class iterator
    {
        const node* p_;
      public:
        using difference_type = std::ptrdiff_t;
        using value_type = element;
        using reference = element;
        using pointer = void;
        using iterator_category = std::forward_iterator_tag;
        explicit iterator(const node* p = nullptr) : p_(p) {}
        element operator*() const { return element(p_); }
        iterator& operator++() { ++p_; return *this; }
        iterator operator++(int) { iterator t = *this; ++p_; return t; }
        bool operator!=(const iterator& o) const { return p_ != o.p_; }
        bool operator==(const iterator& o) const { return p_ == o.p_; }
    };
    iterator begin() const { return iterator(n_->kids.data()); }
    iterator end() const { return iterator(n_->kids.data() + n_->kids.size()); }
    size_t size() const { return n_->kids.size(); }
    simdjson_result<element> at(size_t i) const { if (i >= size()) { return INDEX_OUT_OF_BOUNDS; } return element(&n_->kids[i]); }
};

struct key_value_pair { std::string_view key; element value; };

class object
{
    const node* n_ = nullptr;
  public:
    object() = default;
    explicit object(const node* n) : n_(n) {}
    class iterator
    {
        const node* n_; size_t i_;
      public:
        iterator(const node* n, size_t i) : n_(n), i_(i) {}
        key_value_pair operator*() const { return {n_->keys[i_], element(&n_->kids[i_])}; }
        iterator& operator++() { ++i_; return *this; }
        bool operator!=(const iterator& o) const { return i_ != o.i_; }
        bool operator==(const iterator& o) const { return i_ == o.i_; }
    };
    iterator begin() const { return {n_, 0}; }
    iterator end() const { return {n_, n_->keys.size()}; }
    size_t size() const { return n_->keys.size(); }
    simdjson_result<element> operator[](std::string_view k) const { return element(n_)[k]; }
};

inline error_code element::get(array& o) const noexcept { if (!n_ || n_->t != element_type::ARRAY) { return INCORRECT_TYPE; } o = array(n_); return SUCCESS; }
inline error_code element::get(object& o) const noexcept { if (!n_ || n_->t != element_type::OBJECT) { return INCORRECT_TYPE; } o = object(n_); return SUCCESS; }

class parser
{
    std::unique_ptr<node> root_;
    const char* p_ = nullptr;
    const char* e_ = nullptr;

    void ws() { while (p_ < e_ && (*p_ == ' ' || *p_ == '\t' || *p_ == '\n' || *p_ == '\r')) { ++p_; } }
    static void utf8(std::string& s, uint32_t c)
    {
        if (c < 0x80) { s += static_cast<char>(c); }
        else if (c < 0x800) { s += static_cast<char>(0xC0 | (c >> 6)); s += static_cast<char>(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += static_cast<char>(0xE0 | (c >> 12)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
        else { s += static_cast<char>(0xF0 | (c >> 18)); s += static_cast<char>(0x80 | ((c >> 12) & 63)); s += static_cast<char>(0x80 | ((c >> 6) & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }
    bool hex4(uint32_t& v)
    {
        if (e_ - p_ < 4) { return false; }
        v = 0;
        for (int k = 0; k < 4; ++k)
        {
            char c = *p_++;
            v <<= 4;
            if (c >= '0' && c <= '9') { v |= static_cast<uint32_t>(c - '0'); }
            else if (c >= 'a' && c <= 'f') { v |= static_cast<uint32_t>(c - 'a' + 10); }
            else if (c >= 'A' && c <= 'F') { v |= static_cast<uint32_t>(c - 'A' + 10); }
            else { return false; }
        }
        return true;
    }
    error_code str(std::string& out)
    {
        ++p_; // opening quote
        out.clear();
        while (true)
        {
            if (p_ >= e_) { return UNCLOSED_STRING; }
            auto c = static_cast<unsigned char>(*p_);
            if (c == '"') { ++p_; return SUCCESS; }
            if (c < 0x20) { return UNESCAPED_CHARS; }
            if (c != '\\') { out += static_cast<char>(c); ++p_; continue; }
            ++p_;
            if (p_ >= e_) { return UNCLOSED_STRING; }
            switch (*p_++)
            {
            case '"': out += '"'; break;
            case '\\': out += '\\'; break;
            case '/': out += '/'; break;
            case 'b': out += '\b'; break;
            case 'f': out += '\f'; break;
            case 'n': out += '\n'; break;
            case 'r': out += '\r'; break;
            case 't': out += '\t'; break;
            case 'u': {
                uint32_t v, w;
                if (!hex4(v)) { return STRING_ERROR; }
                if (v >= 0xD800 && v < 0xDC00)
                {
                    if (e_ - p_ < 6 || p_[0] != '\\' || p_[1] != 'u') { return STRING_ERROR; }
                    p_ += 2;
                    if (!hex4(w) || w < 0xDC00 || w > 0xDFFF) { return STRING_ERROR; }
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                else if (v >= 0xDC00 && v < 0xE000) { return STRING_ERROR; }
                utf8(out, v);
                break;
            }
            default: return STRING_ERROR;
            }
        }
    }
    error_code num(node& n)
    {
        const char* s = p_;
        bool neg = false, flt = false;
        if (*p_ == '-') { neg = true; ++p_; }
        if (p_ >= e_ || *p_ < '0' || *p_ > '9') { return NUMBER_ERROR; }
        if (*p_ == '0') { ++p_; if (p_ < e_ && *p_ >= '0' && *p_ <= '9') { return NUMBER_ERROR; } }
        else { while (p_ < e_ && *p_ >= '0' && *p_ <= '9') { ++p_; } }
        if (p_ < e_ && *p_ == '.')
        {
            flt = true; ++p_;
            if (p_ >= e_ || *p_ < '0' || *p_ > '9') { return NUMBER_ERROR; }
            while (p_ < e_ && *p_ >= '0' && *p_ <= '9') { ++p_; }
        }
        if (p_ < e_ && (*p_ == 'e' || *p_ == 'E'))
        {
            flt = true; ++p_;
            if (p_ < e_ && (*p_ == '+' || *p_ == '-')) { ++p_; }
            if (p_ >= e_ || *p_ < '0' || *p_ > '9') { return NUMBER_ERROR; }
            while (p_ < e_ && *p_ >= '0' && *p_ <= '9') { ++p_; }
        }
        if (p_ < e_ && !(*p_ == ',' || *p_ == ']' || *p_ == '}' || *p_ == ' ' || *p_ == '\t' || *p_ == '\n' || *p_ == '\r' || *p_ == ':')) { return NUMBER_ERROR; }
        std::string tok(s, p_);
        if (flt)
        {
            n.t = element_type::DOUBLE;
            n.d = std::strtod(tok.c_str(), nullptr);
            return std::isfinite(n.d) ? SUCCESS : NUMBER_ERROR;
        }
        errno = 0;
        if (neg)
        {
            n.i = std::strtoll(tok.c_str(), nullptr, 10);
            n.t = element_type::INT64;
            return errno ? BIGINT_ERROR : SUCCESS;
        }
        n.u = std::strtoull(tok.c_str(), nullptr, 10);
        if (errno) { return BIGINT_ERROR; }
        if (n.u <= static_cast<uint64_t>(INT64_MAX)) { n.t = element_type::INT64; n.i = static_cast<int64_t>(n.u); }
        else { n.t = element_type::UINT64; }
        return SUCCESS;
    }
    error_code val(node& n, int depth)
    {
        ws();
        if (p_ >= e_) { return TAPE_ERROR; }
        if (depth > 1024) { return DEPTH_ERROR; }
        auto lit = [&](const char* l) { size_t k = std::strlen(l); if (static_cast<size_t>(e_ - p_) >= k && !std::memcmp(p_, l, k)) { p_ += k; return true; } return false; };
        switch (*p_)
        {
        case '{': {
            n.t = element_type::OBJECT;
            ++p_; ws();
            if (p_ < e_ && *p_ == '}') { ++p_; return SUCCESS; }
            while (true)
            {
                ws();
                if (p_ >= e_ || *p_ != '"') { return TAPE_ERROR; }
                std::string k;
                if (auto e = str(k)) { return e; }
                ws();
                if (p_ >= e_ || *p_ != ':') { return TAPE_ERROR; }
                ++p_;
                n.keys.push_back(std::move(k));
                n.kids.emplace_back();
                if (auto e = val(n.kids.back(), depth + 1)) { return e; }
                ws();
                if (p_ < e_ && *p_ == ',') { ++p_; continue; }
                if (p_ < e_ && *p_ == '}') { ++p_; return SUCCESS; }
                return TAPE_ERROR;
            }
        }
        case '[': {
            n.t = element_type::ARRAY;
            ++p_; ws();
            if (p_ < e_ && *p_ == ']') { ++p_; return SUCCESS; }
            while (true)
            {
                n.kids.emplace_back();
                if (auto e = val(n.kids.back(), depth + 1)) { return e; }
                ws();
                if (p_ < e_ && *p_ == ',') { ++p_; continue; }
                if (p_ < e_ && *p_ == ']') { ++p_; return SUCCESS; }
                return TAPE_ERROR;
            }
        }
        case '"': n.t = element_type::STRING; return str(n.s);
        case 't': n.t = element_type::BOOL; n.b = true; return lit("true") ? SUCCESS : TAPE_ERROR;
        case 'f': n.t = element_type::BOOL; n.b = false; return lit("false") ? SUCCESS : TAPE_ERROR;
        case 'n': return lit("null") ? SUCCESS : TAPE_ERROR;
        default: return num(n);
        }
    }
    static bool valid_utf8(const char* s, size_t len)
    {
        const auto* p = reinterpret_cast<const unsigned char*>(s);
        const auto* e = p + len;
        while (p < e)
        {
            unsigned c = *p++;
            if (c < 0x80) { continue; }
            int k; uint32_t v, lo;
            if ((c & 0xE0) == 0xC0) { k = 1; v = c & 0x1F; lo = 0x80; }
            else if ((c & 0xF0) == 0xE0) { k = 2; v = c & 0x0F; lo = 0x800; }
            else if ((c & 0xF8) == 0xF0) { k = 3; v = c & 0x07; lo = 0x10000; }
            else { return false; }
            while (k--) { if (p >= e || (*p & 0xC0) != 0x80) { return false; } v = (v << 6) | (*p++ & 0x3F); }
            if (v < lo || v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF)) { return false; }
        }
        return true;
    }
  public:
    parser() = default;
    simdjson_result<element> parse(const char* d, size_t n)
    {
        root_ = std::make_unique<node>();
        p_ = d; e_ = d + n;
        if (!valid_utf8(d, n)) { return UTF8_ERROR; }
        ws();
        if (p_ == e_) { return EMPTY; }
        if (auto e = val(*root_, 0)) { return e; }
        ws();
        if (p_ != e_) { return TAPE_ERROR; }
        return element(root_.get());
    }
    simdjson_result<element> parse(std::string_view s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const std::string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const char* s) { return parse(s, std::strlen(s)); }
    simdjson_result<element> parse(const padded_string& s) { return parse(s.data(), s.size()); }
};
} // namespace dom
} // namespace simdjson
