#pragma once
namespace utl { struct scoped_timer { explicit scoped_timer(char const*) {} ~scoped_timer() {} }; struct manual_timer { explicit manual_timer(char const*) {} void stop_and_print() const {} }; }
