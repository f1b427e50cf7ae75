// Common parts of all drivers: seeded random numbers and the trace writer.
//
// A trace is a sequence of lines, each a JSON object whose first member is "e" (the name of
// the specification action it is an occurrence of).
#ifndef VP_COMMON_HPP
#define VP_COMMON_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <fstream>
#include <functional>
#include <iterator>
#include <optional>

namespace vp {

class Rng {
public:
    // Seeds are scrambled so that the sequences of neighbouring seeds are unrelated, and not merely displaced
    explicit Rng(std::uint64_t seed): m_s(mix(seed ^ 0x5851F42D4C957F2Dull)) { m_s ^= mix(m_s + seed); }
    std::uint64_t next()
    {
        return mix(m_s += 0x9E3779B97F4A7C15ull);
    }
    static std::uint64_t mix(std::uint64_t z)
    {
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // Uniform in [0, n)
    long below(long n) { return n <= 0 ? 0 : long(next() % std::uint64_t(n)); }
    // Uniform in [a, b]
    long range(long a, long b) { return a + below(b - a + 1); }
    bool chance(int percent) { return below(100) < percent; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[std::size_t(below(long(v.size())))]; }
private:
    std::uint64_t m_s;
};

inline void json_str(std::string& out, std::string_view s)
{
    out += '"';
    for (char c_ : s) {
        unsigned char c = static_cast<unsigned char>(c_);
        if (c == '"' || c == '\\') { out += '\\'; out += c_; }
        else if (c < 0x20 || c >= 0x7F) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); out += b; }
        else out += c_;
    }
    out += '"';
}

// One event. Members are emitted in the order of the calls.
class Ev {
public:
    explicit Ev(std::string_view name) { m = "{\"e\":"; json_str(m, name); }
    Ev& i(const char* k, long long v) { key(k); m += std::to_string(v); return *this; }
    Ev& b(const char* k, bool v) { key(k); m += v ? "true" : "false"; return *this; }
    Ev& s(const char* k, std::string_view v) { key(k); json_str(m, v); return *this; }
    Ev& raw(const char* k, std::string_view v) { key(k); m += v; return *this; }
    template<class R> Ev& seq(const char* k, const R& r) { key(k); put_seq(r); return *this; }
    template<class R> Ev& strs(const char* k, const R& r)
    {
        key(k); m += '['; bool f = true;
        for (auto&& x : r) { if (!f) m += ','; f = false; json_str(m, x); }
        m += ']'; return *this;
    }
    // Bytes / characters as a sequence of integers
    Ev& chars(const char* k, std::string_view v)
    {
        key(k); m += '['; bool f = true;
        for (char c : v) { if (!f) m += ','; f = false; m += std::to_string(int(static_cast<unsigned char>(c))); }
        m += ']'; return *this;
    }
    Ev& wchars(const char* k, std::wstring_view v)
    {
        key(k); m += '['; bool f = true;
        for (wchar_t c : v) { if (!f) m += ','; f = false; m += std::to_string(long(c)); }
        m += ']'; return *this;
    }
    template<class R> Ev& seq2(const char* k, const R& r)
    {
        key(k); m += '['; bool f = true;
        for (auto&& x : r) { if (!f) m += ','; f = false; put_seq(x); }
        m += ']'; return *this;
    }
    std::string str() const { return m + "}"; }
private:
    std::string m;
    void key(const char* k) { m += ','; json_str(m, k); m += ':'; }
    template<class R> void put_seq(const R& r)
    {
        m += '['; bool f = true;
        for (auto&& x : r) { if (!f) m += ','; f = false; m += std::to_string(static_cast<long long>(x)); }
        m += ']';
    }
};

class Trace {
public:
    explicit Trace(const char* path): m_f(std::fopen(path, "w"))
    {
        if (!m_f) { std::fprintf(stderr, "cannot open %s\n", path); std::exit(3); }
        // Line buffered, so that a crash leaves the events before it
        std::setvbuf(m_f, nullptr, _IOFBF, 1 << 16);
    }
    ~Trace() { std::fclose(m_f); }
    void put(const Ev& e) { std::string s = e.str(); s += '\n'; std::fwrite(s.data(), 1, s.size(), m_f); }
    void flush() { std::fflush(m_f); }
private:
    std::FILE* m_f;
};

// ---- A small JSON reader for the scripts that TLC generates

struct J {
    enum K { null, num, str, arr, obj, boo } k = null;
    long n = 0; std::string s; std::vector<J> a; std::vector<std::pair<std::string, J>> o; bool b = false;
    const J& operator[](std::string_view key) const
    {
        for (auto& p : o) if (p.first == key) return p.second;
        std::fprintf(stderr, "missing key %.*s\n", int(key.size()), key.data()); std::exit(3);
    }
    bool has(std::string_view key) const { for (auto& p : o) if (p.first == key) return true; return false; }
    const J& operator[](std::size_t i) const { return a.at(i); }
    std::vector<int> ints() const { std::vector<int> v; for (auto& x : a) v.push_back(int(x.n)); return v; }
};

class JParser {
public:
    explicit JParser(std::string_view t): t(t) {}
    J parse() { J j; ws(); char c = t.at(p);
        if (c == '{') { j.k = J::obj; ++p; ws(); if (t[p] == '}') { ++p; return j; }
            for (;;) { ws(); std::string key = str(); ws(); ++p; J v = parse(); j.o.emplace_back(std::move(key), std::move(v)); ws(); if (t[p++] == '}') break; } }
        else if (c == '[') { j.k = J::arr; ++p; ws(); if (t[p] == ']') { ++p; return j; }
            for (;;) { j.a.push_back(parse()); ws(); if (t[p++] == ']') break; } }
        else if (c == '"') { j.k = J::str; j.s = str(); }
        else if (c == 't') { j.k = J::boo; j.b = true; p += 4; }
        else if (c == 'f') { j.k = J::boo; p += 5; }
        else if (c == 'n') { p += 4; }
        else { j.k = J::num; char* e; j.n = std::strtol(t.data() + p, &e, 10); p = std::size_t(e - t.data()); }
        return j; }
private:
    std::string_view t; std::size_t p = 0;
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\t')) ++p; }
    std::string str() { std::string r; ++p; while (t.at(p) != '"') { char c = t[p++]; if (c == '\\') { c = t[p++]; if (c == 'n') c = '\n'; else if (c == 't') c = '\t'; else if (c == 'u') { c = char(std::strtol(std::string(t.substr(p, 4)).c_str(), nullptr, 16)); p += 4; } } r += c; } ++p; return r; }
};

// A script file: one JSON array per line
inline std::vector<J> load_scripts(const char* path)
{
    std::ifstream in(path);
    std::vector<J> v; std::string line;
    while (std::getline(in, line)) if (!line.empty()) v.push_back(JParser(line).parse());
    return v;
}

// Arguments: <seed> <episodes> <steps> <trace> [script file]
struct Args {
    std::uint64_t seed; long episodes; long steps; const char* trace; std::vector<J> scripts;
    Args(int argc, char** argv)
    {
        if (argc < 5) { std::fprintf(stderr, "usage: driver seed episodes steps trace [scripts]\n"); std::exit(3); }
        seed = std::strtoull(argv[1], nullptr, 10); episodes = std::atol(argv[2]); steps = std::atol(argv[3]); trace = argv[4];
        if (argc > 5 && std::strcmp(argv[5], "-") != 0) scripts = load_scripts(argv[5]);
    }
};

} // namespace vp

#endif
