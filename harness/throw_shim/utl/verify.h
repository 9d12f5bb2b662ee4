// Model of utl::fail / utl::verify for witness units: failing never comes back, what it says is not looked at.
#pragma once
#include <stdexcept>
extern "C" [[noreturn]] void witness_throw() noexcept;
namespace utl {
template <typename... A> [[noreturn]] inline std::runtime_error fail(A const&...) { witness_throw(); }
template <typename... A> inline void verify(bool const ok, A const&...) { if (!ok) witness_throw(); }
template <typename E, typename... A> inline void verify_ex(bool const ok, A const&...) { if (!ok) witness_throw(); }
}  // namespace utl
