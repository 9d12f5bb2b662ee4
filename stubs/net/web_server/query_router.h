#pragma once
#include <functional>
#include <regex>
#include <string>
#include <vector>
#include "net/web_server/web_server.h"
namespace net {
struct query_router {
  struct route_request : public web_server::http_req_t {
    route_request() = default;
    explicit route_request(web_server::http_req_t r) : web_server::http_req_t(std::move(r)) {}
    std::vector<std::string> path_params_;
    std::string username_, password_;
  };
  using route_request_handler = std::function<void(route_request const&, web_server::http_res_cb_t const&, bool)>;
  struct handler { std::string method_; std::string pattern_; std::regex path_; route_request_handler request_handler_; };
  query_router& route(std::string method, std::string const& path_regex, route_request_handler h) {
    routes_.push_back({std::move(method), path_regex, std::regex{path_regex}, std::move(h)});
    return *this;
  }
  void reply_hook(std::function<void(web_server::http_res_t const&)> h) { reply_hook_ = std::move(h); }
  void operator()(web_server::http_req_t req, web_server::http_res_cb_t const& cb, bool ssl) {
    std::string const t{req.target()};
    for (auto const& r : routes_) {
      std::smatch m;
      if (!std::regex_match(t, m, r.path_)) { continue; }
      route_request rr{req};
      for (auto i = 1U; i < m.size(); ++i) { rr.path_params_.push_back(m[i].str()); }
      r.request_handler_(rr, cb, ssl);
      return;
    }
  }
  std::vector<handler> routes_;
  std::function<void(web_server::http_res_t const&)> reply_hook_;
};
}  // namespace net
