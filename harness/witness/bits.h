// Model of cista::bitset / cista::basic_bitvec for witness units: blocks of eight bits, a fixed number of them,
// so that the optimiser can evaluate every operation.  Semantics follow the library: reading beyond the end is
// false, shifts drop what leaves the range, equality compares sizes and contents.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <string_view>
extern "C" void witness_capacity_exceeded();
namespace cista {
template <std::size_t N>
struct bitset {  // only the lowest 64 positions are representable
  constexpr bitset() = default;
  constexpr bitset(std::string_view s) {  // the last character is position zero
    std::size_t const n = s.size() < 64 ? s.size() : 64;
    for (std::size_t i = 0; i < n; ++i) if (s[s.size() - i - 1] != '0') w_ |= std::uint64_t{1} << i;
  }
  static std::uint64_t shl(std::uint64_t w, std::size_t n) {
    if (n >= N || w == 0) return 0;
    if (n >= 64 || (w >> (63 - n) >> 1) != 0) witness_capacity_exceeded();
    return w << n; }
  static std::uint64_t shr(std::uint64_t w, std::size_t n) { return n >= 64 ? 0 : w >> n; }
  void set(std::size_t const i, bool const v = true) {
    if (i >= N) return;
    if (i >= 64) witness_capacity_exceeded();
    w_ = v ? w_ | (std::uint64_t{1} << i) : w_ & ~(std::uint64_t{1} << i); }
  void reset(std::size_t const i) { set(i, false); }
  void reset() { w_ = 0; }
  bool operator[](std::size_t const i) const { return test(i); }
  bool test(std::size_t const i) const { return i < 64 && ((w_ >> i) & 1U); }
  std::size_t count() const { return static_cast<std::size_t>(__builtin_popcountll(w_)); }
  bool any() const { return w_ != 0; }
  bool none() const { return w_ == 0; }
  static constexpr std::size_t size() { return N; }
  bitset& operator<<=(std::size_t n) { w_ = shl(w_, n); return *this; }
  bitset& operator>>=(std::size_t n) { w_ = shr(w_, n); return *this; }
  bitset operator<<(std::size_t n) const { auto c = *this; c <<= n; return c; }
  bitset operator>>(std::size_t n) const { auto c = *this; c >>= n; return c; }
  bitset& operator|=(bitset const& o) { w_ |= o.w_; return *this; }
  bitset& operator&=(bitset const& o) { w_ &= o.w_; return *this; }
  bitset& operator^=(bitset const& o) { w_ ^= o.w_; return *this; }
  friend bitset operator|(bitset a, bitset const& b) { a |= b; return a; }
  friend bitset operator&(bitset a, bitset const& b) { a &= b; return a; }
  friend bitset operator^(bitset a, bitset const& b) { a ^= b; return a; }
  friend bool operator==(bitset const& a, bitset const& b) { return a.w_ == b.w_; }
  friend bool operator!=(bitset const& a, bitset const& b) { return a.w_ != b.w_; }
  friend bool operator<(bitset const& a, bitset const& b) { return a.w_ < b.w_; }
  std::uint64_t w_{0};
};

// every block is a scalar of its own
template <typename Vec>
struct basic_bitvec {
  using block_t = std::uint8_t;
  using size_type = std::uint32_t;
  static constexpr auto const bits_per_block = static_cast<size_type>(8);
  struct blocks {
    static constexpr unsigned C = 5;
    struct ref {
      blocks* b_; unsigned i_;
      operator block_t() const { return b_->get(i_); }
      ref const& operator=(block_t v) const { b_->put(i_, v); return *this; }
      ref const& operator=(ref const& o) const { return *this = static_cast<block_t>(o); }
      ref const& operator|=(block_t v) const { return *this = static_cast<block_t>(b_->get(i_) | v); }
      ref const& operator&=(block_t v) const { return *this = static_cast<block_t>(b_->get(i_) & v); }
      ref const& operator^=(block_t v) const { return *this = static_cast<block_t>(b_->get(i_) ^ v); }
    };
    block_t get(unsigned i) const { switch (i) { case 0: return b0; case 1: return b1; case 2: return b2; case 3: return b3; case 4: return b4; default: return 0; } }
    void put(unsigned i, block_t v) { switch (i) { case 0: b0 = v; break; case 1: b1 = v; break; case 2: b2 = v; break; case 3: b3 = v; break; case 4: b4 = v; break; default: break; } }
    ref operator[](std::size_t i) { if (i >= n_) __builtin_trap(); return ref{this, static_cast<unsigned>(i)}; }
    block_t operator[](std::size_t i) const { if (i >= n_) __builtin_trap(); return get(static_cast<unsigned>(i)); }
    ref at(std::size_t i) { return (*this)[i]; }
    block_t at(std::size_t i) const { return (*this)[i]; }
    ref front() { return (*this)[0]; } ref back() { return (*this)[n_ - 1]; }
    block_t front() const { return (*this)[0]; } block_t back() const { return (*this)[n_ - 1]; }
    struct cit { blocks const* b_; unsigned i_; block_t operator*() const { return (*b_)[i_]; } cit& operator++() { ++i_; return *this; } bool operator==(cit const&) const = default; };
    struct it { blocks* b_; unsigned i_; ref operator*() const { return (*b_)[i_]; } it& operator++() { ++i_; return *this; } bool operator==(it const&) const = default; };
    it begin() { return {this, 0}; } it end() { return {this, n_}; }
    cit begin() const { return {this, 0}; } cit end() const { return {this, n_}; }
    size_type size() const { return n_; } bool empty() const { return n_ == 0; }
    void resize(size_type k) { if (k > C) witness_capacity_exceeded(); for (unsigned i = 0; i < C; ++i) if (i >= k || i >= n_) put(i, 0); n_ = k; }
    void clear() { resize(0); }
    std::uint64_t word() const { return b0 | std::uint64_t{b1} << 8 | std::uint64_t{b2} << 16 | std::uint64_t{b3} << 24 | std::uint64_t{b4} << 32; }
    void word(std::uint64_t w) { b0 = static_cast<block_t>(w); b1 = static_cast<block_t>(w >> 8); b2 = static_cast<block_t>(w >> 16); b3 = static_cast<block_t>(w >> 24); b4 = static_cast<block_t>(w >> 32); }
    block_t b0{0}, b1{0}, b2{0}, b3{0}, b4{0}; size_type n_{0};
  };
  basic_bitvec() = default;
  static constexpr size_type num_blocks(size_type n) { return n / bits_per_block + (n % bits_per_block != 0 ? 1U : 0U); }
  void clean() { for (unsigned i = 0; i < blocks::C; ++i) { if (8 * i >= size_) blocks_.put(i, 0); else if (8 * (i + 1) > size_) blocks_.put(i, static_cast<block_t>(blocks_.get(i) & ((1U << (size_ - 8 * i)) - 1))); } }
  void resize(size_type n) { blocks_.resize(num_blocks(n)); size_ = n; }
  void set(size_type const i, bool const v = true) {
    if (i >= size_) __builtin_trap();
    auto const bit = static_cast<block_t>(1U << (i % 8)); auto const b = blocks_.get(i / 8);
    blocks_.put(i / 8, static_cast<block_t>(v ? b | bit : b & ~bit)); }
  void reset() { blocks_.clear(); size_ = 0U; }
  bool operator[](size_type const i) const { return test(i); }
  bool test(size_type const i) const { return i < size_ && ((blocks_.get(i / 8) >> (i % 8)) & 1U); }
  size_type size() const { return size_; }
  bool empty() const { return size_ == 0U; }
  bool any() const { return (blocks_.b0 | blocks_.b1 | blocks_.b2 | blocks_.b3 | blocks_.b4) != 0; }
  bool none() const { return !any(); }
  std::size_t count() const { std::size_t c = 0; for (unsigned i = 0; i < blocks::C; ++i) c += static_cast<std::size_t>(__builtin_popcount(blocks_.get(i))); return c; }
  template <typename F> void for_each_set_bit(F&& f) const { for (size_type i = 0; i < size_; ++i) if (test(i)) f(i); }
  void shl(unsigned n) { blocks_.word(n >= 64 ? 0 : blocks_.word() << n); clean(); }
  void shr(unsigned n) { blocks_.word(n >= 64 ? 0 : blocks_.word() >> n); }
  basic_bitvec& operator<<=(size_type n) { shl(n); return *this; }
  basic_bitvec& operator>>=(size_type n) { shr(n); return *this; }
  friend basic_bitvec operator<<(basic_bitvec a, size_type n) { a <<= n; return a; }
  friend basic_bitvec operator>>(basic_bitvec a, size_type n) { a >>= n; return a; }
  basic_bitvec& operator|=(basic_bitvec const& o) { if (o.size_ != size_) __builtin_trap(); for (unsigned i = 0; i < blocks::C; ++i) blocks_.put(i, static_cast<block_t>(blocks_.get(i) | o.blocks_.get(i))); return *this; }
  basic_bitvec& operator&=(basic_bitvec const& o) { if (o.size_ != size_) __builtin_trap(); for (unsigned i = 0; i < blocks::C; ++i) blocks_.put(i, static_cast<block_t>(blocks_.get(i) & o.blocks_.get(i))); return *this; }
  friend bool operator==(basic_bitvec const& a, basic_bitvec const& b) { if (a.size_ != b.size_) return false; for (unsigned i = 0; i < blocks::C; ++i) if (a.blocks_.get(i) != b.blocks_.get(i)) return false; return true; }
  friend bool operator!=(basic_bitvec const& a, basic_bitvec const& b) { return !(a == b); }
  blocks blocks_;
  size_type size_{0U};
};
}  // namespace cista

// a short list of small numbers in one machine word
template <typename T, typename A = void>
struct word_vec {
  using value_type = T; using size_type = std::size_t;
  std::uint64_t w = 0; unsigned n = 0;
  constexpr word_vec() = default;
  constexpr word_vec(std::initializer_list<T> l) { for (auto const x : l) push_back(x); }
  constexpr void push_back(T x) { if (n >= 8 || x > 255) witness_capacity_exceeded(); w |= static_cast<std::uint64_t>(x) << (8 * n); ++n; }
  template <typename X> constexpr void emplace_back(X x) { push_back(static_cast<T>(x)); }
  constexpr T at(std::size_t i) const { if (i >= n) __builtin_trap(); return static_cast<T>((w >> (8 * i)) & 255); }
  constexpr T operator[](std::size_t i) const { return at(i); }
  constexpr T front() const { return at(0); } constexpr T back() const { return at(n - 1); }
  constexpr std::size_t size() const { return n; } constexpr bool empty() const { return n == 0; }
  constexpr void reserve(std::size_t) {}
  struct it { using value_type = T; using difference_type = std::ptrdiff_t; using reference = T; using pointer = T const*; using iterator_category = std::input_iterator_tag;
    word_vec const* v = nullptr; unsigned i = 0; constexpr T operator*() const { return (*v)[i]; } constexpr it& operator++() { ++i; return *this; } constexpr it operator++(int) { auto c = *this; ++i; return c; }
    constexpr it operator+(std::ptrdiff_t k) const { return {v, static_cast<unsigned>(i + k)}; } constexpr bool operator==(it const&) const = default; };
  using iterator = it; using const_iterator = it;
  constexpr it begin() const { return {this, 0}; } constexpr it end() const { return {this, n}; }
  constexpr it cbegin() const { return begin(); } constexpr it cend() const { return end(); }
  friend constexpr bool operator==(word_vec const& a, word_vec const& b) { return a.n == b.n && a.w == b.w; }
};
namespace std { template <typename T, typename A = void> using word_vec = ::word_vec<T>; }
namespace soro { template <typename T, typename A = void> using word_vec = ::word_vec<T>; }
