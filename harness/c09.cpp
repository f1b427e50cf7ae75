// Driver for Base64 coding (core/base64.hpp).
#include "common.hpp"
#include <archon/core/base64.hpp>
using namespace archon;
namespace b64 = core::base64;
using Pad = b64::DecodeConfig::Padding;

std::string enc_json(const b64::EncodeConfig& c)
{
    return std::string("{\"url\":") + (c.url_safe_variant ? "true" : "false") + ",\"pad\":" + (c.use_padding ? "true" : "false") + ",\"line\":" + std::to_string(c.line_size) + "}";
}
std::string dec_json(const b64::DecodeConfig& c)
{
    const char* p = c.padding == Pad::allow ? "allow" : c.padding == Pad::reject ? "reject" : "require";
    return std::string("{\"url\":") + (c.url_safe_variant ? "true" : "false") + ",\"pad\":\"" + p + "\",\"ws\":" + (c.allow_whitespace ? "true" : "false") + "}";
}

struct Run {
    vp::Trace& t; vp::Rng& r;
    std::vector<std::vector<long>> calls;

    // Feeds input in pieces, and takes output in pieces, until the end or until nothing happens any more
    template<class F> void pieces(F&& f, const std::string& in, std::string& out, const char*& fin)
    {
        calls.clear();
        bool all = r.chance(20), room_all = r.chance(20);
        std::size_t at = 0, given = all ? in.size() : std::size_t(r.below(long(in.size()) + 1));
        int idle = 0; fin = "bad";
        for (int k = 0; k < 4000; ++k) {
            bool last = given == in.size() && (all || r.chance(60) || idle > 0);
            std::vector<char> piece(in.begin() + long(at), in.begin() + long(given));
            std::size_t room = room_all ? 400 : std::size_t(idle > 1 ? 8 : r.below(5));
            std::vector<char> buf(room, '*');
            const char* d = piece.data(); const char* de = d + piece.size(); char* b = buf.data(); char* be = b + room;
            bool ok = f(d, de, last, b, be);
            std::size_t used = std::size_t(d - piece.data()), made = std::size_t(b - buf.data());
            calls.push_back({ long(piece.size()), last, long(piece.size() - used), long(room), long(room - made), ok });
            out.append(buf.data(), made); at += used;
            if (ok) { fin = "done"; return; }
            if (used == 0 && made == 0 && room > 0 && last) { if (++idle > 2) return; } else if (used > 0 || made > 0) idle = 0;
            if (used == 0 && made == 0 && room > 0 && !piece.empty() && !last) ++idle;
            if (idle > 5) return;
            if (given < in.size() && (at == given || r.chance(30))) given += std::size_t(r.range(1, long(in.size() - given)));
            else if (given < in.size() && idle > 0) given = in.size();
        }
        fin = "endless";
    }

    void encode(const std::string& in)
    {
        b64::EncodeConfig c; c.url_safe_variant = r.chance(50); c.use_padding = r.chance(50);
        c.line_size = r.chance(50) ? 0 : std::size_t(r.chance(50) ? r.range(1, 9) : r.range(10, 80));
        std::vector<char> exact(in.begin(), in.end());
        core::Span<const char> span(exact.data(), exact.size());
        {
            core::Buffer<char> buf(std::size_t(r.below(4)));
            std::string_view s = r.chance(50) ? b64::encode(span, buf, c) : b64::encode(span, buf, std::locale::classic(), c);
            t.put(vp::Ev("encode").chars("in", in).raw("c", enc_json(c)).chars("out", s));
        }
        {
            std::size_t need = b64::encode_buffer_size(in.size(), c);
            t.put(vp::Ev("esize").i("n", long(in.size())).raw("c", enc_json(c)).i("size", long(need)));
            std::size_t room = std::size_t(std::max(0L, long(need) + (r.chance(50) ? 0 : r.range(-4, 3))));
            std::vector<char> buf(room); std::size_t size = 77; bool lack = false;
            bool ok = b64::encode(span, core::Span<char>(buf.data(), room), size, lack, c);
            t.put(vp::Ev("encodeto").chars("in", in).raw("c", enc_json(c)).i("room", long(room)).b("ok", ok).b("lack", lack).chars("out", ok && size <= room ? std::string(buf.data(), size) : std::string()));
        }
        std::string out; const char* fin;
        b64::IncrementalEncoder e(c);
        pieces([&](const char*& d, const char* de, bool end, char*& b, char* be) { return e.encode(d, de, end, b, be); }, in, out, fin);
        t.put(vp::Ev("iencode").chars("in", in).raw("c", enc_json(c)).chars("out", out).s("fin", fin).seq2("calls", calls));
    }

    void decode(const std::string& in, const b64::DecodeConfig& c)
    {
        std::vector<char> exact(in.begin(), in.end());
        std::string_view s(exact.data(), exact.size());
        {
            core::Buffer<char> buf(std::size_t(r.below(4))); std::string out; bool ok = true;
            try {
                core::Span<const char> x = r.chance(50) ? b64::decode(s, buf, c) : b64::decode(s, buf, std::locale::classic(), c);
                out.assign(x.data(), x.size());
            }
            catch (std::runtime_error&) { ok = false; }
            t.put(vp::Ev("decode").chars("in", in).raw("c", dec_json(c)).b("ok", ok).chars("out", out));
        }
        {
            std::size_t need = b64::decode_buffer_size(in.size());
            t.put(vp::Ev("dsize").i("n", long(in.size())).i("size", long(need)));
            std::size_t room = std::size_t(std::max(0L, long(need) + (r.chance(50) ? 0 : r.range(-4, 3))));
            std::vector<char> buf(room); std::size_t size = 77; bool lack = false;
            bool ok = b64::decode(s, core::Span<char>(buf.data(), room), size, lack, c);
            t.put(vp::Ev("decodeto").chars("in", in).raw("c", dec_json(c)).i("room", long(room)).b("ok", ok).b("lack", lack).chars("out", ok && size <= room ? std::string(buf.data(), size) : std::string()));
        }
        std::string out; const char* fin;
        b64::IncrementalDecoder d(c);
        pieces([&](const char*& a, const char* ae, bool end, char*& b, char* be) { return d.decode(a, ae, end, b, be); }, in, out, fin);
        t.put(vp::Ev("idecode").chars("in", in).raw("c", dec_json(c)).chars("out", out).s("fin", fin).seq2("calls", calls));
    }
    b64::DecodeConfig config()
    {
        b64::DecodeConfig c; c.url_safe_variant = r.chance(50); c.padding = Pad(r.below(3)); c.allow_whitespace = r.chance(50);
        return c;
    }
    std::string bytes()
    {
        static const unsigned char edges[] = { 0, 1, 3, 15, 16, 63, 64, 127, 128, 191, 192, 240, 251, 252, 254, 255 };
        std::string s; long n = r.chance(20) ? r.range(0, 90) : r.range(0, 9);
        for (long i = 0; i < n; ++i) s += char(r.chance(50) ? edges[r.below(16)] : r.below(256));
        return s;
    }
    void text()
    {
        b64::EncodeConfig e; e.url_safe_variant = r.chance(50); e.use_padding = r.chance(60); e.line_size = r.chance(30) ? std::size_t(r.range(1, 20)) : 0;
        core::Buffer<char> buf; std::string in = bytes(); std::string s(b64::encode(core::Span<const char>(in.data(), in.size()), buf, e));
        b64::DecodeConfig c = config(); if (r.chance(70)) c.url_safe_variant = e.url_safe_variant;
        if (r.chance(50) && e.line_size > 0) c.allow_whitespace = true;
        static const char odd[] = " \t\n\r=+/-_.AZaz09@[`{,*\x80\xFF\x7F";
        for (long k = r.chance(50) ? 0 : r.below(4); k > 0; --k) {
            std::size_t at = std::size_t(r.below(long(s.size()) + 1)); if (r.chance(40)) at = s.size();
            char ch = r.chance(80) ? odd[r.below(long(sizeof odd))] : char(r.below(256));
            if (r.chance(30)) ch = " \t\n="[r.below(4)];
            switch (r.below(3)) {
                case 0: s.insert(at, 1, ch); break;
                case 1: if (at < s.size()) s[at] = ch; break;
                default: if (at < s.size()) s.erase(at, 1);
            }
        }
        decode(s, c);
    }
};

int main(int argc, char** argv)
{
    vp::Args a(argc, argv);
    vp::Trace tr(a.trace);
    vp::Rng rng(a.seed);
    Run x { tr, rng, {} };
    tr.put(vp::Ev("reset"));
    for (const vp::J& s : a.scripts) {
        std::string t; for (auto& v : s["t"].a) t += char(v.n);
        b64::DecodeConfig c; const vp::J& j = s["c"];
        c.url_safe_variant = j["url"].b; c.allow_whitespace = j["ws"].b;
        c.padding = j["pad"].s == "allow" ? Pad::allow : j["pad"].s == "reject" ? Pad::reject : Pad::require;
        x.decode(t, c);
    }
    for (long k = 0; k < a.episodes; ++k) { x.encode(x.bytes()); x.text(); x.text(); }
}
