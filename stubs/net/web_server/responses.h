#pragma once
#include "net/web_server/web_server.h"
namespace net {
inline web_server::string_res_t make_response(web_server::http_req_t const& req, boost::beast::http::status s, std::string body = {}) {
  web_server::string_res_t r{s, req.version()}; r.body() = std::move(body); r.prepare_payload(); return r; }
inline web_server::string_res_t not_found_response(web_server::http_req_t const& req, std::string const& = {}) { return make_response(req, boost::beast::http::status::not_found); }
inline web_server::string_res_t bad_request_response(web_server::http_req_t const& req, std::string const& = {}) { return make_response(req, boost::beast::http::status::bad_request); }
inline web_server::string_res_t server_error_response(web_server::http_req_t const& req, std::string const& = {}) { return make_response(req, boost::beast::http::status::internal_server_error); }
inline web_server::empty_res_t empty_response(web_server::http_req_t const& req, boost::beast::http::status s = boost::beast::http::status::ok) { return web_server::empty_res_t{s, req.version()}; }
inline web_server::string_res_t string_response(web_server::http_req_t const& req, std::string const& c, boost::beast::http::status s = boost::beast::http::status::ok) { return make_response(req, s, c); }
}  // namespace net
