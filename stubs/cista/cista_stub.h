// Stand-in for felixguendling/cista (absent from this sandbox): only the
// interface soro-s uses, implemented on the standard library.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <bitset>
#include <cassert>
#include <cinttypes>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace cista {

using hash_t = std::uint64_t;
using offset_t = std::intptr_t;
template <typename... Args>
constexpr hash_t hash_combine(hash_t h, Args... vals) {
  ((h = (h ^ static_cast<hash_t>(vals)) * 1099511628211ULL), ...);
  return h;
}
inline constexpr hash_t hash(std::string_view s, hash_t h = 14695981039346656037ULL) {
  for (auto const c : s) { h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL; }
  return h;
}
template <typename T>
hash_t type_hash(T const&, hash_t h, std::map<hash_t, unsigned>&) { return h; }

enum class mode { NONE = 0, UNCHECKED = 1, WITH_VERSION = 2, WITH_INTEGRITY = 4, SKIP_VERSION = 8, SKIP_INTEGRITY = 16, DEEP_CHECK = 32 };
constexpr mode operator|(mode a, mode b) { return static_cast<mode>(static_cast<int>(a) | static_cast<int>(b)); }

template <typename T> constexpr bool is_pointer_v = std::is_pointer_v<T>;
template <typename T> using remove_pointer_t = std::remove_pointer_t<T>;

struct arg_hash { template <typename T> std::size_t operator()(T const& t) const; };

struct mmap {
  enum class protection { READ, WRITE, MODIFY };
  mmap() = default;
  explicit mmap(char const* path, protection = protection::MODIFY);
  std::string_view view() const { return {}; }
  unsigned char const* data() const { return nullptr; }
  unsigned char* data() { return nullptr; }
  std::size_t size() const { return 0U; }
  unsigned char const* begin() const { return data(); }
  unsigned char const* end() const { return data(); }
};
inline mmap::mmap(char const*, protection) {}
template <typename Buf> struct buf { buf() = default; explicit buf(Buf&& b) : buf_{std::move(b)} {} Buf buf_; };
template <typename B> buf(B&&) -> buf<B>;
using byte_buf = std::vector<std::uint8_t>;
template <mode M = mode::NONE, typename Target, typename T> void serialize(Target&, T const&) {}
template <mode M = mode::NONE, typename T> byte_buf serialize(T const&) { return {}; }
template <typename T, mode M = mode::NONE, typename C> T* deserialize(C const&) { return nullptr; }
template <typename Ctx, typename T> void serialize(Ctx&, T const*, offset_t) {}
template <typename Ctx, typename T> void deserialize(Ctx const&, T*) {}

#if defined(WITNESS_BITS)
}  // namespace cista
#include WITNESS_BITS
namespace cista {
#else
template <std::size_t N>
struct bitset {
  constexpr bitset() = default;
  explicit bitset(std::string_view s) : b_{std::string{s}} {}
  void set(std::size_t const i, bool const v = true) { b_.set(i, v); }
  void reset(std::size_t const i) { b_.reset(i); }
  void reset() { b_.reset(); }
  bool operator[](std::size_t const i) const { return b_[i]; }
  bool test(std::size_t const i) const { return b_[i]; }
  std::size_t count() const { return b_.count(); }
  bool any() const { return b_.any(); }
  bool none() const { return b_.none(); }
  static constexpr std::size_t size() { return N; }
  std::string to_string() const { return b_.to_string(); }
  template <typename F> void for_each_set_bit(F&& f) const { for (auto i = std::size_t{0U}; i < N; ++i) { if (b_[i]) { f(i); } } }
  bitset& operator<<=(std::size_t n) { b_ <<= n; return *this; }
  bitset& operator>>=(std::size_t n) { b_ >>= n; return *this; }
  bitset operator<<(std::size_t n) const { auto c = *this; c.b_ <<= n; return c; }
  bitset operator>>(std::size_t n) const { auto c = *this; c.b_ >>= n; return c; }
  bitset& operator|=(bitset const& o) { b_ |= o.b_; return *this; }
  bitset& operator&=(bitset const& o) { b_ &= o.b_; return *this; }
  bitset& operator^=(bitset const& o) { b_ ^= o.b_; return *this; }
  bitset operator|(bitset const& o) const { auto c = *this; c.b_ |= o.b_; return c; }
  bitset operator&(bitset const& o) const { auto c = *this; c.b_ &= o.b_; return c; }
  bitset operator~() const { auto c = *this; c.b_ = ~c.b_; return c; }
  bool operator==(bitset const& o) const { return b_ == o.b_; }
  bool operator!=(bitset const& o) const { return b_ != o.b_; }
  bool operator<(bitset const& o) const { return b_.to_string() < o.b_.to_string(); }
  std::bitset<N> b_{};
};

template <typename Vec>
struct basic_bitvec {
  using block_t = std::uint64_t;
  using size_type = std::uint32_t;
  static constexpr auto const bits_per_block = static_cast<size_type>(sizeof(block_t) * 8);
  basic_bitvec() = default;
  static constexpr size_type num_blocks(size_type n) { return n / bits_per_block + (n % bits_per_block != 0 ? 1U : 0U); }
  void resize(size_type n) { blocks_.resize(num_blocks(n)); size_ = n; }
  void set(size_type const i, bool const v = true) {
    auto& b = blocks_[i / bits_per_block]; auto const bit = i % bits_per_block;
    b = v ? (b | (block_t{1U} << bit)) : (b & ~(block_t{1U} << bit)); }
  void reset() { blocks_ = {}; size_ = 0U; }
  bool operator[](size_type const i) const { return (blocks_[i / bits_per_block] >> (i % bits_per_block)) & 1U; }
  bool test(size_type const i) const { return (*this)[i]; }
  size_type size() const { return size_; }
  bool empty() const { return size_ == 0U; }
  bool any() const { for (auto const b : blocks_) { if (b != 0U) { return true; } } return false; }
  bool none() const { return !any(); }
  std::size_t count() const { auto c = std::size_t{0U}; for (auto const b : blocks_) { c += static_cast<std::size_t>(__builtin_popcountll(b)); } return c; }
  template <typename F> void for_each_set_bit(F&& f) const { for (auto i = size_type{0U}; i < size_; ++i) { if ((*this)[i]) { f(i); } } }
  basic_bitvec& operator<<=(size_type n) {
    auto c = *this; for (auto& b : blocks_) { b = 0U; }
    for (auto i = n; i < size_; ++i) { if (c[i - n]) { set(i); } } return *this; }
  basic_bitvec& operator>>=(size_type n) {
    auto c = *this; for (auto& b : blocks_) { b = 0U; }
    for (auto i = size_type{0U}; i + n < size_; ++i) { if (c[i + n]) { set(i); } } return *this; }
  basic_bitvec& operator|=(basic_bitvec const& o) { for (auto i = 0U; i < blocks_.size(); ++i) { blocks_[i] |= o.blocks_[i]; } return *this; }
  basic_bitvec& operator&=(basic_bitvec const& o) { for (auto i = 0U; i < blocks_.size(); ++i) { blocks_[i] &= o.blocks_[i]; } return *this; }
  friend bool operator==(basic_bitvec const& a, basic_bitvec const& b) { return a.size_ == b.size_ && a.blocks_ == b.blocks_; }
  friend bool operator!=(basic_bitvec const& a, basic_bitvec const& b) { return !(a == b); }
  std::string str() const { return {}; }
  size_type size_{0U};
  Vec blocks_;
};
#endif

template <typename T>
struct optional : std::optional<T> { using std::optional<T>::optional; };
template <typename... Ts> struct tuple : std::tuple<Ts...> { using std::tuple<Ts...>::tuple; };
template <typename T> constexpr std::size_t tuple_size_v = std::tuple_size_v<T>;
template <std::size_t I, typename T> using tuple_element_t = std::tuple_element_t<I, T>;

template <typename... Ts>
struct variant {
  variant() = default;
  template <typename T> requires(std::is_same_v<std::decay_t<T>, Ts> || ...)
  variant(T&& t) : v_{std::forward<T>(t)} {}
  template <typename T> requires(std::is_same_v<std::decay_t<T>, Ts> || ...)
  variant& operator=(T&& t) { v_ = std::forward<T>(t); return *this; }
  template <typename T, typename... A> T& emplace(A&&... a) { return v_.template emplace<T>(std::forward<A>(a)...); }
  template <typename F> decltype(auto) apply(F&& f) { return apply_<0>(std::forward<F>(f), v_); }
  template <typename F> decltype(auto) apply(F&& f) const { return apply_<0>(std::forward<F>(f), v_); }
  template <std::size_t I, typename F, typename V> static decltype(auto) apply_(F&& f, V& v) {
    if constexpr (I + 1 == sizeof...(Ts)) { if constexpr (requires { f(*std::get_if<I>(&v)); }) { return f(*std::get_if<I>(&v)); } }
    else { if constexpr (requires { f(*std::get_if<I>(&v)); }) { if (v.index() == I) { return f(*std::get_if<I>(&v)); } } return apply_<I + 1>(std::forward<F>(f), v); }
  }
  template <typename T> T& as() { return *std::get_if<T>(&v_); }
  template <typename T> T const& as() const { return *std::get_if<T>(&v_); }
  std::size_t index() const { return v_.index(); }
  bool valid() const { return !v_.valueless_by_exception(); }
  friend bool operator==(variant const& a, variant const& b) { return a.v_ == b.v_; }
  std::variant<Ts...> v_;
};
template <typename T, typename... Ts> bool holds_alternative(variant<Ts...> const& v) { return std::holds_alternative<T>(v.v_); }
template <typename T, typename... Ts> T const& get(variant<Ts...> const& v) { return std::get<T>(v.v_); }
template <typename T, typename... Ts> T& get(variant<Ts...>& v) { return std::get<T>(v.v_); }

namespace detail {
template <typename T, typename = void> struct hasher { std::size_t operator()(T const& t) const {
    if constexpr (requires { t.hash(); }) { return t.hash(); }
    else if constexpr (requires { std::hash<T>{}(t); }) { return std::hash<T>{}(t); }
    else { return 0U; } } };
}
template <typename Ptr> struct basic_string : std::string { using std::string::string; std::string_view view() const { return *this; } };
template <typename Ptr> struct basic_string_view : std::string_view { using std::string_view::string_view; };

#define CISTA_STUB_NS(NS)                                                     \
  namespace NS {                                                              \
  template <typename T> using ptr = T*;                                       \
  template <typename T> using unique_ptr = std::unique_ptr<T>;                \
  template <typename A, typename B> using pair = std::pair<A, B>;             \
  template <typename... Ts> using tuple = std::tuple<Ts...>;                  \
  template <typename T> using vector = std::vector<T>;                        \
  template <typename T, std::size_t N> struct array : std::array<T, N> {};     \
  template <typename T, typename... U> array(T, U...) -> array<T, 1 + sizeof...(U)>; \
  using string = std::string;                                                 \
  using string_view = std::string_view;                                       \
  template <typename... Ts> using variant = cista::variant<Ts...>;            \
  using bitvec = cista::basic_bitvec<std::vector<std::uint64_t>>;             \
  template <typename T, typename H = detail::hasher<T>, typename E = std::equal_to<T>> \
  using hash_set = std::unordered_set<T, H, E>;                               \
  template <typename K, typename V, typename H = detail::hasher<K>, typename E = std::equal_to<K>> \
  using hash_map = std::unordered_map<K, V, H, E>;                            \
  template <typename V, typename Idx> struct fws_multimap {                   \
    void push_back(V const& v) { data_.push_back(v); }                        \
    void finish_key() { idx_.push_back(static_cast<Idx>(data_.size())); }     \
    void finish_map() {}                                                      \
    auto operator[](Idx) const { return std::vector<V>{}; }                   \
    std::size_t index_size() const { return idx_.size(); }                    \
    std::vector<V> data_; std::vector<Idx> idx_;                              \
  };                                                                          \
  template <typename T, typename... A> unique_ptr<T> make_unique(A&&... a) { return std::make_unique<T>(std::forward<A>(a)...); } \
  }
CISTA_STUB_NS(raw)
CISTA_STUB_NS(offset)
#undef CISTA_STUB_NS
}  // namespace cista

namespace std {
template <typename T, typename... Ts> T& get(cista::variant<Ts...>& v) { return *std::get_if<T>(&v.v_); }
template <typename T, typename... Ts> T const& get(cista::variant<Ts...> const& v) { return *std::get_if<T>(&v.v_); }
template <typename T, std::size_t N> struct tuple_size<cista::raw::array<T, N>> : integral_constant<std::size_t, N> {};
template <typename T, std::size_t N> struct tuple_size<cista::offset::array<T, N>> : integral_constant<std::size_t, N> {};
}
