// A client over a bare (simulated) socket, and a strict parser of what it receives.
#pragma once
#include "common.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>
#include "/repo/blocks/http/api.h"

using namespace current;
using current::http::HTTPServerPOSIX;
using current::http::Request;
using current::net::http::Headers;
using ull = unsigned long long;
using ll = long long;
using std::string;
using std::vector;

namespace {
// ---- A client which speaks over a bare (simulated) socket -----------------------------------------------------------
struct RawConn {
  int fd = -1;
  explicit RawConn(uint16_t port) {
    fd = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a)) { ::close(fd); fd = -1; }
  }
  explicit RawConn(int accepted, bool) : fd(accepted) {}
  ~RawConn() { Close(); }
  void Close() { if (fd >= 0) { ::close(fd); fd = -1; } }
  bool Send(const string& s) {
    size_t o = 0;
    while (o < s.size()) {
      const ssize_t n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) return false;
      o += n;
    }
    return true;
  }
  // In pieces, with pauses.
  bool SendInPieces(const string& s, size_t pieces) {
    size_t o = 0;
    while (o < s.size()) {
      size_t n = s.size() - o;
      if (pieces > 1 && n > 1) { n = 1 + sim::W(sim::WB(0.5) ? n : std::min<size_t>(n, 8)); --pieces; }
      if (n > s.size() - o) n = s.size() - o;
      if (!Send(s.substr(o, n))) return false;
      o += n;
      if (sim::WB(0.3)) sim::SleepUs(sim::W(3000));
    }
    return true;
  }
  // Until the end of the stream; `false` if it has been reset.
  bool ReadAll(string& out) {
    char b[4096];
    while (true) {
      const ssize_t n = ::recv(fd, b, sizeof b, 0);
      if (n < 0 && errno == EINTR) continue;
      if (n < 0) return false;
      if (!n) return true;
      out.append(b, n);
    }
  }
  int Read1() { char c; while (true) { const ssize_t n = ::recv(fd, &c, 1, 0); if (n < 0 && errno == EINTR) continue; return n == 1 ? static_cast<unsigned char>(c) : -1; } }
  // Until the blank line, and then as many bytes as `Content-Length` says.
  bool ReadRequest(string& out) {
    while (out.size() < 4 || out.compare(out.size() - 4, 4, "\r\n\r\n")) { const int c = Read1(); if (c < 0) return false; out += static_cast<char>(c); }
    const size_t cl = out.find("Content-Length: ");
    if (cl != string::npos) {
      const size_t n = strtoul(out.c_str() + cl + 16, nullptr, 10);
      for (size_t i = 0; i < n; ++i) { const int c = Read1(); if (c < 0) return false; out += static_cast<char>(c); }
    }
    return true;
  }
};

string Lower(string s) { for (char& c : s) c = c == '_' ? '-' : static_cast<char>(tolower(c)); return s; }
string Esc(const string& s) {
  string r;
  char x[8];
  for (size_t i = 0; i < s.size() && i < 200; ++i) {
    const unsigned char c = s[i];
    if (c < 32 || c > 126) { snprintf(x, sizeof x, "\\x%02x", c); r += x; } else r += c;
  }
  if (s.size() > 200) r += "... (" + std::to_string(s.size()) + " bytes)";
  return r;
}

struct ParsedResponse { int code = 0; std::map<string, string> headers; string body; string error; };
// A strict parser of a complete response.
ParsedResponse ParseResponse(const string& s) {
  ParsedResponse r;
  size_t o = s.find("\r\n");
  if (o == string::npos || s.compare(0, 9, "HTTP/1.1 ")) { r.error = "no status line"; return r; }
  r.code = atoi(s.c_str() + 9);
  o += 2;
  while (true) {
    const size_t e = s.find("\r\n", o);
    if (e == string::npos) { r.error = "no end of the headers"; return r; }
    const string line = s.substr(o, e - o);
    o = e + 2;
    if (line.empty()) break;
    const size_t c = line.find(": ");
    if (c == string::npos) { r.error = "bad header line: " + line; return r; }
    string& v = r.headers[Lower(line.substr(0, c))];
    v = v.empty() ? line.substr(c + 2) : v + ", " + line.substr(c + 2);
  }
  if (r.headers.count("transfer-encoding")) {
    while (true) {
      const size_t e = s.find("\r\n", o);
      if (e == string::npos) { r.error = "a truncated chunk header"; return r; }
      char* end;
      const size_t n = strtoul(s.c_str() + o, &end, 16);
      if (end != s.c_str() + e) { r.error = "a bad chunk header"; return r; }
      o = e + 2;
      if (s.size() < o + n + 2 || s.compare(o + n, 2, "\r\n")) { r.error = "a truncated chunk"; return r; }
      if (!n) { o += 2; break; }
      r.body += s.substr(o, n);
      o += n + 2;
    }
  } else {
    if (!r.headers.count("content-length")) { r.error = "no Content-Length"; return r; }
    const size_t n = strtoul(r.headers["content-length"].c_str(), nullptr, 10);
    if (s.size() < o + n) { r.error = "a truncated body"; return r; }
    r.body = s.substr(o, n);
    o += n;
  }
  if (o != s.size()) r.error = "there is something after the response: `" + Esc(s.substr(o)) + "`";
  return r;
}

void NetChaos(bool lossy) {
  auto& k = sim::K();
  if (sim::CB(0.6)) k.net_segment = sim::CB(0.5) ? 0.3 : 0.05;
  if (sim::CB(0.5)) { k.net_delay = 0.3; k.net_delay_max_us = sim::CB(0.5) ? 3 : 50; }
  if (sim::CB(0.6)) k.net_short_recv = 0.3;
  if (sim::CB(0.5)) k.net_eintr = sim::CB(0.5) ? 0.3 : 0.05;
  if (sim::CB(0.4)) k.net_sndbuf = sim::CB(0.5) ? 4096 : 100 + sim::C(3000);
  if (lossy && sim::CB(0.5)) k.net_reset = sim::CB(0.5) ? 0.01 : 0.05;
  if (lossy && sim::CB(0.3)) k.net_refuse = 0.1;
}

}  // namespace
