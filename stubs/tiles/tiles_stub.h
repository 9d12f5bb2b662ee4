#pragma once
#include <cstdint>
#include <optional>
#include <string>
#include <vector>
#include "utl/verify.h"
#include "net/web_server/query_router.h"
namespace lmdb { struct env { }; struct txn { explicit txn(env&) {} }; }
namespace tiles {
constexpr auto const kDefaultSize = std::size_t{1024};
struct dbi_opener {};
struct tile_db_handle { explicit tile_db_handle(lmdb::env& e) : env_{e} {} dbi_opener features_dbi_opener() const { return {}; } lmdb::env& env_; };
struct dbi_handle { dbi_handle(tile_db_handle&, dbi_opener) {} };
struct pack_handle { explicit pack_handle(char const*) {} };
struct render_ctx { bool ignore_prepared_{false}; bool ignore_fully_seaside_{false}; bool compress_result_{true}; int tb_aggregate_lines_{0}; };
struct perf_counter {};
struct feature_inserter_mt { feature_inserter_mt(dbi_handle, pack_handle&) {} };
struct tile_t { std::uint32_t x_, y_, z_; };
inline render_ctx make_render_ctx(tile_db_handle&) { return {}; }
inline lmdb::env make_tile_database(char const*, std::size_t, std::size_t = 0) { return {}; }
inline void check_profile(std::string const&) {}
inline void clear_database(std::string const&, std::size_t) {}
inline void clear_pack_file(char const*) {}
inline void database_stats(tile_db_handle&, pack_handle&) {}
inline void pack_features(tile_db_handle&, pack_handle&) {}
inline void prepare_tiles(tile_db_handle&, pack_handle&, std::uint32_t) {}
inline void load_osm(tile_db_handle&, feature_inserter_mt&, std::string const&, std::string const&, std::string const&) {}
inline tile_t url_match_to_tile(std::vector<std::string> const& params) {
  utl::verify(params.size() >= 3, "insufficient params");
  auto const n = params.size();
  return {static_cast<std::uint32_t>(std::stoul(params[n - 2])), static_cast<std::uint32_t>(std::stoul(params[n - 1])), static_cast<std::uint32_t>(std::stoul(params[n - 3]))}; }
template <typename T, typename P> std::optional<std::string> get_tile(tile_db_handle&, pack_handle&, render_ctx const&, T const&, P&) { return {}; }
}  // namespace tiles
