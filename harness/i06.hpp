#ifndef VP_I06_HPP
#define VP_I06_HPP
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <archon/core/source.hpp>
#include <archon/core/sink.hpp>
#include <archon/core/typed_object_registry.hpp>
#include <archon/image.hpp>
#include <archon/image/file_format.hpp>
#include <archon/image/file_format_registry.hpp>
using namespace archon;
template<int> struct Special : image::FileFormat::SpecialLoadConfig { int value = 0; };
template<int> struct SpecialSave : image::FileFormat::SpecialSaveConfig { int value = 0; };
struct Fake : image::FileFormat {
    std::string id, magic; std::vector<std::string> mimes, exts; std::vector<std::string_view> mv, ev; std::size_t greed = 0; bool by_some = false;
    static inline std::vector<std::string> asked; static inline std::string used, got; static inline int special = 0;
    bool starts(const std::string&) const;
    auto get_ident() const noexcept -> std::string_view override { return id; }
    auto get_descr() const -> std::string_view override { return id; }
    auto get_mime_types() const noexcept -> core::Span<const std::string_view> override { return core::Span<const std::string_view>(mv.data(), mv.size()); }
    auto get_filename_extensions() const noexcept -> core::Span<const std::string_view> override { return core::Span<const std::string_view>(ev.data(), ev.size()); }
    bool recognize(core::Source&) const override;
    bool do_try_load(core::Source&, std::unique_ptr<image::WritableImage>&, const std::locale&, log::Logger&, const LoadConfig&, std::error_code&) const override;
    bool do_try_save(const image::Image&, core::Sink&, const std::locale&, log::Logger&, const SaveConfig&, std::error_code&) const override;
    void done() { mv.assign(mimes.begin(), mimes.end()); ev.assign(exts.begin(), exts.end()); }
};
struct Thing { int n = 0; };
template<int> struct Kind : Thing {};
using Types = core::TypedObjectRegistry<Thing, 2>;
int find(const Types&, int kind);
void enter_here(Types&, Thing&, int kind);
#endif
