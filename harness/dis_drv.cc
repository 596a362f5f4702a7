// Disassembles requests in several orders.
//   dis FILL LOW  B bank*B  S (addr =hex)*S  C (addr default|noreturn|mode)*C
//       R (addr mode)*R  P order*P
// LOW: the lowest offset of a bank that can be read.
// An order is a string of request numbers from 1, "21" for the second first.
#include <cassert>
#include <algorithm>
#include <deque>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "isa_names.h"
#include "nsasm/disassemble.h"

using namespace nsasm;

static const char* B(bool b) { return b ? "true" : "false"; }
static std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
static const char* Name(BitState b) {
  return b == B_off ? "off" : b == B_on ? "on" : b == B_original ? "orig" : "unk";
}
static std::string Json(const StatusFlags& f) {
  return std::string("{\"e\":\"") + Name(f.EBit()) + "\",\"m\":\"" + Name(f.MBit()) +
         "\",\"x\":\"" + Name(f.XBit()) + "\",\"c\":\"" + Name(f.CBit()) + "\"}";
}
static std::string Tag(const std::string& t) {
  return "{\"e\":\"" + t + "\",\"m\":\"" + t + "\",\"x\":\"" + t + "\",\"c\":\"" + t + "\"}";
}
static std::string Json(const ReturnConvention& r) {
  if (r.IsDefault()) return Tag("default");
  if (r.IsExitCall()) return Tag("noreturn");
  return Json(*r.YieldFlags());
}
static unsigned Int(Address a) { return (unsigned(a.Bank()) << 16) | a.BankAddress(); }
static StatusFlags Mode(const std::string& s) {
  auto f = StatusFlags::FromName(s);
  if (!f) exit(3);
  return *f;
}

struct Image {
  int fill = 0, low = 0;
  std::set<unsigned> banks;
  std::map<unsigned, uint8_t> at;
};
class Source : public InputSource {
 public:
  explicit Source(const Image& i) : i_(i) {}
  std::string Path() const override { return "image"; }
  ErrorOr<std::vector<uint8_t>> Read(Address a, int n) const override {
    unsigned p = Int(a);
    if (!i_.banks.count(p >> 16)) return Error("nothing there");
    std::vector<uint8_t> r;
    for (int k = 0; k < n; ++k) {
      if (!i_.banks.count(p >> 16) || int(p & 0xffff) < i_.low) return Error("nothing there");
      auto it = i_.at.find(p);
      r.push_back(it == i_.at.end() ? i_.fill : it->second);
      p = (p & 0xff0000) | ((p + 1) & 0xffff);
    }
    return r;
  }

 private:
  const Image& i_;
};

static std::string Snap(const Disassembler& d) {
  std::ostringstream o;
  o << "[";
  bool first = true;
  for (auto& node : d.Result()) {
    const auto& di = node.second;
    const Instruction& i = di.instruction;
    std::string text = i.arg1.ToString();
    if (text.size() > 1 && text[0] == '@') text = text.substr(1);
    bool named = !text.empty() && (isalpha(text[0]) || text[0] == '_');
    auto v = i.arg1.Evaluate(NullLookupContext()), w = i.arg2.Evaluate(NullLookupContext());
    o << (first ? "" : ",") << "{\"a\":" << Int(node.first) << ",\"mn\":\"" << NameOf(kMnemonics, i.mnemonic)
      << "\",\"mode\":\"" << NameOf(kModes, i.addressing_mode) << "\",\"v\":" << (v.ok() ? *v : 0)
      << ",\"w\":" << (w.ok() ? *w : 0) << ",\"named\":" << B(named) << ",\"name\":" << Quote(named ? text : "")
      << ",\"suf\":\"" << (i.suffix == S_b ? "b" : i.suffix == S_w ? "w" : "") << "\",\"ret\":"
      << Json(i.return_convention) << ",\"label\":" << Quote(di.label) << ",\"entry\":" << B(di.is_entry)
      << ",\"f\":" << Json(di.current_execution_state.Flags()) << ",\"n\":"
      << Json(di.next_execution_state.Flags()) << "}";
    first = false;
  }
  return o.str() + "]";
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\"";
    if (op == "dis") {
      Image im;
      int n;
      in >> im.fill >> im.low >> n;
      o << ",\"fill\":" << im.fill << ",\"low\":" << im.low << ",\"banks\":[";
      for (int i = 0; i < n; ++i) {
        unsigned b;
        in >> b;
        im.banks.insert(b);
        o << (i ? "," : "") << b;
      }
      in >> n;
      o << "],\"segs\":[";
      for (int i = 0; i < n; ++i) {
        unsigned a;
        std::string h;
        in >> a >> h;
        o << (i ? "," : "") << "{\"a\":" << a << ",\"b\":[";
        for (size_t k = 1; k + 1 < h.size(); k += 2) {
          int v = std::stoi(h.substr(k, 2), nullptr, 16);
          im.at.insert({a, v});     // the first segment to say so decides
          a = (a & 0xff0000) | ((a + 1) & 0xffff);
          o << (k > 1 ? "," : "") << v;
        }
        o << "]}";
      }
      in >> n;
      o << "],\"convs\":[";
      std::map<Address, ReturnConvention> convs;
      for (int i = 0; i < n; ++i) {
        unsigned a;
        std::string r;
        in >> a >> r;
        ReturnConvention rc;
        if (r == "noreturn") rc = ReturnConvention(NoReturn());
        else if (r != "default") rc = ReturnConvention(Mode(r));
        convs[Address(a)] = rc;
        o << (i ? "," : "") << "{\"a\":" << a << ",\"r\":" << Json(rc) << "}";
      }
      in >> n;
      o << "],\"reqs\":[";
      std::vector<std::pair<unsigned, StatusFlags>> reqs;
      for (int i = 0; i < n; ++i) {
        unsigned a;
        std::string m;
        in >> a >> m;
        reqs.push_back({a, Mode(m)});
        o << (i ? "," : "") << "{\"a\":" << a << ",\"f\":" << Json(reqs.back().second) << "}";
      }
      in >> n;
      if (!in) return 3;
      o << "],\"runs\":[";
      for (int i = 0; i < n; ++i) {
        std::string order;
        in >> order;
        Disassembler d(std::make_unique<Source>(im));
        d.AddTargetReturnConventions(convs);
        o << (i ? "," : "") << "{\"order\":[";
        for (size_t k = 0; k < order.size(); ++k) o << (k ? "," : "") << order[k] - '0';
        o << "],\"steps\":[";
        for (size_t k = 0; k < order.size(); ++k) {
          size_t q = order[k] - '1';
          if (q >= reqs.size()) return 3;
          auto r = d.Disassemble(Address(reqs[q].first), reqs[q].second);
          o << (k ? "," : "") << "{\"ok\":" << B(r.ok()) << ",\"error\":"
            << Quote(r.ok() ? "" : r.error().ToString()) << ",\"far\":[";
          bool first = true;
          if (r.ok())
            for (auto& t : *r) {
              o << (first ? "" : ",") << "{\"a\":" << Int(t.first) << ",\"f\":" << Json(t.second) << "}";
              first = false;
            }
          o << "],\"snap\":" << Snap(d) << "}";
        }
        bool ok = d.Cleanup().ok();
        o << "],\"cleanup\":" << B(ok) << ",\"final\":" << Snap(d) << "}";
      }
      o << "]";
    } else if (op != "begin") {
      return 3;
    }
    std::cout << o.str() << "}" << std::endl;
  }
  return 0;
}
