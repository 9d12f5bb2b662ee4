// Sequential model: that the jobs do not touch each other's data is judged elsewhere.
#pragma once
namespace utl { template <typename C, typename F> void parallel_for(C& c, F&& f) { for (auto& x : c) f(x); } }
