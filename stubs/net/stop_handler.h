#pragma once
#include <functional>
#include "boost/asio/io_context.hpp"
namespace net { struct stop_handler { stop_handler(boost::asio::io_context&, std::function<void()>) {} }; }
