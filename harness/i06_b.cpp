// The other translation unit of the driver of property I06: image file formats that record what is asked of them.
#include "i06.hpp"
#include <archon/core/assert.hpp>

bool Fake::starts(const std::string& b) const { return b.size() >= magic.size() && b.compare(0, magic.size(), magic) == 0; }
bool Fake::recognize(core::Source& source) const
{
    asked.push_back(id); std::string b; std::size_t want = std::max<std::size_t>(magic.size(), greed); char buf[64];
    while (b.size() < want) { std::size_t n = 0; std::error_code ec; std::size_t k = std::min<std::size_t>(want - b.size(), 1 + b.size() % 7); core::Span<char> s(buf, k);
        if (by_some ? !source.try_read_some(s, n, ec) : !source.try_read(s, n, ec)) return false; if (n == 0) break; b.append(buf, n); }
    return starts(b);
}
bool Fake::do_try_load(core::Source& source, std::unique_ptr<image::WritableImage>& im, const std::locale&, log::Logger&, const LoadConfig& c, std::error_code& ec) const
{
    used = id; special = 0; if (c.special) { auto* s = c.special->get<const Special<1>>(); if (s) special += s->value; auto* s2 = c.special->get<const Special<2>>(); if (s2) special += 100 * s2->value; }
    char buf[50]; for (;;) { std::size_t n = 0; if (!source.try_read_some(core::Span<char>(buf, 1 + got.size() % 50), n, ec)) return false; if (n == 0) break; got.append(buf, n); }
    if (!starts(got)) { ec = image::Error::wrong_file_format; return false; }
    im = std::make_unique<image::BufferedImage<image::IntegerPixelFormat_Lum<image::int8_type>>>(image::Size(1, 1)); return true;
}
bool Fake::do_try_save(const image::Image&, core::Sink& sink, const std::locale&, log::Logger&, const SaveConfig& c, std::error_code& ec) const
{
    used = id; special = 0; if (c.special) { auto* s = c.special->get<const SpecialSave<1>>(); if (s) special += s->value; auto* s2 = c.special->get<const SpecialSave<2>>(); if (s2) special += 100 * s2->value; }
    std::size_t n = 0; return sink.try_write(id, n, ec);
}
int find(const Types& r, int k) { const Thing* p = nullptr; switch (k) { case 1: p = r.get<Kind<1>>(); break; case 2: p = r.get<Kind<2>>(); break; case 3: p = r.get<Kind<3>>(); break; case 4: p = r.get<Thing>(); break; } return p ? p->n : 0; }
void enter_here(Types& r, Thing& t, int k) { switch (k) { case 1: r.register_(static_cast<Kind<1>&>(t)); break; case 2: r.register_(static_cast<Kind<2>&>(t)); break; case 3: r.register_<Kind<3>>(static_cast<Kind<3>&>(t)); break; case 4: r.register_<Thing>(t); break; } }
