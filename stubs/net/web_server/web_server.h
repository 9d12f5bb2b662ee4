#pragma once
#include <functional>
#include <string>
#include <variant>
#include "boost/asio/io_context.hpp"
#include "boost/beast/http.hpp"
#include "boost/beast/version.hpp"
#include "boost/system/error_code.hpp"
namespace net {
struct web_server {
  using http_req_t = boost::beast::http::request<boost::beast::http::string_body>;
  using empty_res_t = boost::beast::http::response<boost::beast::http::empty_body>;
  using string_res_t = boost::beast::http::response<boost::beast::http::string_body>;
  using buffer_res_t = boost::beast::http::response<boost::beast::http::buffer_body>;
  using file_res_t = boost::beast::http::response<boost::beast::http::file_body>;
  using http_res_t = std::variant<buffer_res_t, string_res_t, file_res_t, empty_res_t>;
  using http_res_cb_t = std::function<void(http_res_t&&)>;
  using http_req_cb_t = std::function<void(http_req_t, http_res_cb_t, bool)>;
  explicit web_server(boost::asio::io_context&) {}
  void init(std::string const&, std::string const&, boost::system::error_code&) const {}
  void run() const {}
  void stop() const {}
  void on_http_request(http_req_cb_t) const {}
};
}  // namespace net
