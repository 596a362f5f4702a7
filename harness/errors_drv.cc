// Drives nsasm/error.*, location.h.  Strings are hex-encoded ("=" prefix).
//   begin MSG | attach PATH KIND N | attach2 PATH KIND N PATH KIND N
//   copy | move | or | void | chain DEPTH | rethrow PATH KIND N | value HOW N
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "nsasm/address.h"
#include "nsasm/error.h"

using namespace nsasm;

static std::string Unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
static std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
static const char* B(bool b) { return b ? "true" : "false"; }

struct L {
  std::string p, k;
  int n;
  // each way the code builds locations
  Location Make() const {
    if (k == "none" && p.empty()) return Location();
    if (k == "none") return Location(p);
    if (k == "line" && p.empty()) return Location(n);
    if (k == "line") return Location(p, n);
    if (k == "addr" && n < 0x1000000 && n % 2) return Location(Address(uint32_t(n)));
    return Location::FromAddress(n);
  }
  std::string Json() const {
    return "{\"p\":" + Quote(p) + ",\"k\":\"" + k + "\",\"n\":" + std::to_string(n) + "}";
  }
};
static L Read(std::istream& in) {
  L l;
  in >> l.p >> l.k >> l.n;
  l.p = Unhex(l.p);
  return l;
}

static ErrorOr<int> Chain(const Error& e, int depth) {
  if (depth == 0) return e;
  NSASM_RETURN_IF_ERROR(Chain(e, depth - 1));
  return 1;
}
static ErrorOr<void> ChainVoid(const Error& e, int depth) {
  auto r = Chain(e, depth);
  NSASM_RETURN_IF_ERROR(r);
  return {};
}
static ErrorOr<std::string> Rethrow(const Error& e, const Location& l) {
  ErrorOr<int> inner = e;
  NSASM_RETURN_IF_ERROR_WITH_LOCATION(inner, l);
  return std::string("no error");
}
static ErrorOr<void> RethrowVoid(const Error& e, const Location& l) {
  ErrorOr<void> inner = e;
  NSASM_RETURN_IF_ERROR_WITH_LOCATION(inner, l);
  return {};
}
static ErrorOr<int> PassValue(const ErrorOr<int>& v, int depth) {
  if (depth) {
    auto r = PassValue(v, depth - 1);
    NSASM_RETURN_IF_ERROR(r);
    return *r;
  }
  return v;
}

int main() {
  std::string line, m;
  Error err("%s", "");
  int turn = 0;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\"";
    ++turn;
    Error plain("%s", m);
    if (op == "begin") {
      in >> m;
      m = Unhex(m);
      err = Error("%s", m);
      o << ",\"msg\":" << Quote(m);
    } else if (op == "attach") {
      L a = Read(in);
      err.SetLocation(a.Make());
      o << ",\"l1\":" << a.Json() << ",\"text\":" << Quote(err.ToString())
        << ",\"same\":" << B(err == plain && !(err != plain));
    } else if (op == "attach2") {
      L a = Read(in), b = Read(in);
      err.SetLocation(a.Make(), b.Make());
      o << ",\"l1\":" << a.Json() << ",\"l2\":" << b.Json()
        << ",\"text\":" << Quote(err.ToString())
        << ",\"same\":" << B(err == plain && !(err != plain));
    } else if (op == "rethrow") {
      L a = Read(in);
      bool ok;
      if (turn % 2) {
        auto r = Rethrow(err, a.Make());
        ok = r.ok();
        if (!ok) err = r.error();
      } else {
        auto r = RethrowVoid(err, a.Make());
        ok = r.ok();
        if (!ok) err = r.error();
      }
      o << ",\"l1\":" << a.Json() << ",\"text\":" << Quote(err.ToString())
        << ",\"ok\":" << B(ok);
    } else if (op == "value") {
      std::string how;
      int n, got = -1;
      in >> how >> n;
      bool ok = false;
      if (how == "int") {
        ErrorOr<int> v = n, w = v, x = std::move(w);
        ErrorOr<int> y = err;
        ok = !y.ok();
        y = x;
        ok = ok && y.ok() && v.ok() && x == v && !(x != v);
        if (ok) got = *y;
      } else if (how == "string") {
        ErrorOr<std::string> v = std::to_string(n), w = std::move(v), x = w;
        ok = x.ok() && w.ok() && x == w;
        if (ok) got = x->size() ? std::stoi(*x) : -1;
      } else if (how == "unique") {
        ErrorOr<std::unique_ptr<int>> v = std::make_unique<int>(n);
        ErrorOr<std::unique_ptr<int>> w = std::move(v);
        ok = w.ok();
        if (ok) {
          std::unique_ptr<int> p = *std::move(w);
          got = *p;
        }
      } else if (how == "void") {
        ErrorOr<void> v, w = v, x = err;
        ok = v.ok() && w.ok() && !x.ok() && v == w;
        x = w;
        ok = ok && x.ok();
        got = n;
      } else {
        auto r = PassValue(ErrorOr<int>(n), 5);
        ok = r.ok();
        if (ok) got = *r;
      }
      o << ",\"ok\":" << B(ok) << ",\"val\":" << got << ",\"want\":" << n;
    } else {
      bool ok = false;
      if (op == "copy") {
        Error c = err;
        Error d = plain;
        d = c;
        ok = d != err;
        err = d;
      } else if (op == "move") {
        Error c = std::move(err);
        err = Error("%s", "other");
        err = std::move(c);
      } else if (op == "or") {
        ErrorOr<int> r = err;
        ErrorOr<int> s = r;
        ErrorOr<int> t = 5;
        t = std::move(s);
        ErrorOr<std::vector<int>> u = t.error();
        ok = r.ok() || t.ok() || u.ok();
        if (!ok) err = u.error();
      } else if (op == "void") {
        ErrorOr<void> r = err, s = r, t;
        ok = !t.ok();
        t = std::move(s);
        ok = ok || r.ok() || t.ok();
        if (!ok) err = t.error();
      } else if (op == "chain") {
        int depth = 3;
        in >> depth;
        auto r = ChainVoid(err, depth);
        ok = r.ok();
        if (!ok) err = r.error();
      } else {
        return 3;
      }
      o << ",\"text\":" << Quote(err.ToString()) << ",\"ok\":" << B(ok)
        << ",\"same\":" << B(err == plain && !(err != plain));
    }
    std::cout << o.str() << "}" << std::endl;
  }
  return 0;
}
