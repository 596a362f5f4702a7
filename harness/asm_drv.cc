// Assembles sets of files.
//   asm N (name =hex)*N  Q addr*Q  D addr*D  P order*P
// Q: addresses to ask about afterwards; D: addresses the sink refuses;
// an order is a string of file numbers, "021" for files 0, 2, 1.
#include <cassert>
#include <algorithm>
#include <deque>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "nsasm/assembler.h"

using namespace nsasm;

static const char* B(bool b) { return b ? "true" : "false"; }
static std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
static std::string Unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
static const char* Name(BitState b) {
  return b == B_off ? "off" : b == B_on ? "on" : b == B_original ? "orig" : "unk";
}
static std::string Json(const StatusFlags& f) {
  return std::string("{\"e\":\"") + Name(f.EBit()) + "\",\"m\":\"" + Name(f.MBit()) +
         "\",\"x\":\"" + Name(f.XBit()) + "\",\"c\":\"" + Name(f.CBit()) + "\"}";
}
static std::string Tag(const std::string& t) {
  return "{\"e\":\"" + t + "\",\"m\":\"" + t + "\",\"x\":\"" + t + "\",\"c\":\"" + t + "\"}";
}
static std::string Json(const ReturnConvention& r) {
  if (r.IsDefault()) return Tag("default");
  if (r.IsExitCall()) return Tag("noreturn");
  return Json(*r.YieldFlags());
}
static unsigned Int(Address a) { return (unsigned(a.Bank()) << 16) | a.BankAddress(); }

// Keeps every write, byte by byte.
class Keep : public OutputSink {
 public:
  explicit Keep(const std::set<unsigned>& deny) : deny_(deny) {}
  ErrorOr<void> Write(Address a, absl::Span<const std::uint8_t> data) override {
    unsigned at = Int(a);
    for (auto b : data) {
      if (deny_.count(at)) return Error("refused");
      out.emplace_back(at, b);
      at = (at & 0xff0000) | ((at + 1) & 0xffff);
    }
    return {};
  }
  std::vector<std::pair<unsigned, int>> out;

 private:
  const std::set<unsigned>& deny_;
};

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\"";
    if (op == "asm") {
      int n, q, d, p;
      in >> n;
      std::vector<std::pair<std::string, std::string>> files(n);
      for (auto& f : files) {
        in >> f.first >> f.second;
        f.second = Unhex(f.second);
      }
      in >> q;
      std::vector<unsigned> query(q);
      for (auto& a : query) in >> a;
      in >> d;
      std::set<unsigned> deny;
      for (int i = 0; i < d; ++i) {
        unsigned a;
        in >> a;
        deny.insert(a);
      }
      in >> p;
      if (!in) return 3;
      o << ",\"files\":[";
      for (int i = 0; i < n; ++i) {
        o << (i ? ",[" : "[");
        bool first = true;
        for (auto& l : MakeFakeFile("f", files[i].second)) {
          o << (first ? "" : ",") << Quote(l);
          first = false;
        }
        o << "]";
      }
      o << "],\"deny\":[";
      bool first = true;
      for (unsigned a : deny) o << (first ? "" : ",") << a, first = false;
      o << "],\"runs\":[";
      for (int i = 0; i < p; ++i) {
        std::string order;
        in >> order;
        std::vector<File> fs;
        for (char c : order) {
          if (c < '0' || c - '0' >= n) return 3;
          fs.push_back(MakeFakeFile(files[c - '0'].first, files[c - '0'].second));
        }
        Keep sink(deny);
        auto r = Assemble(fs, &sink);
        o << (i ? "," : "") << "{\"order\":\"" << order << "\",\"ok\":" << B(r.ok()) << ",\"error\":"
          << Quote(r.ok() ? "" : r.error().ToString()) << ",\"writes\":[";
        first = true;
        for (auto& w : sink.out)
          o << (first ? "" : ",") << "[" << w.first << "," << w.second << "]", first = false;
        o << "],\"targets\":[";
        first = true;
        if (r.ok())
          for (auto& t : r->JumpTargets())
            o << (first ? "" : ",") << "{\"a\":" << Int(t.first) << ",\"f\":" << Json(t.second) << "}",
                first = false;
        o << "],\"convs\":[";
        first = true;
        if (r.ok())
          for (auto& t : r->JumpTargetReturnConventions())
            o << (first ? "" : ",") << "{\"a\":" << Int(t.first) << ",\"r\":" << Json(t.second) << "}",
                first = false;
        o << "],\"at\":[";
        first = true;
        if (r.ok())
          for (unsigned a : query) {
            auto name = r->NameForAddress(Address(a));
            o << (first ? "" : ",") << "{\"a\":" << a << ",\"has\":" << B(r->Contains(Address(a)))
              << ",\"name\":" << Quote(name ? name->ToString() : "") << "}";
            first = false;
          }
        o << "]}";
      }
      o << "]";
    } else if (op != "begin") {
      return 3;
    }
    std::cout << o.str() << "}" << std::endl;
  }
  return 0;
}
