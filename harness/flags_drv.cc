// Drives StatusFlags and ReturnConvention.  Each command carries a batch of
// calls; a state is four letters e m x c of f n o u (off, on, original, unknown).
#include <iostream>
#include <sstream>
#include <string>

#include "nsasm/calling_convention.h"
#include "nsasm/execution_state.h"

using namespace nsasm;

static BitState Bit(char c) {
  return c == 'f' ? B_off : c == 'n' ? B_on : c == 'o' ? B_original : B_unknown;
}
static const char* Name(BitState b) {
  return b == B_off ? "off" : b == B_on ? "on" : b == B_original ? "orig" : "unk";
}
static StatusFlags Make(const std::string& s) {
  return StatusFlags(Bit(s[0]), Bit(s[1]), Bit(s[2]), Bit(s[3]));
}
static std::string Json(const StatusFlags& f) {
  return std::string("[\"") + Name(f.EBit()) + "\",\"" + Name(f.MBit()) + "\",\"" +
         Name(f.XBit()) + "\",\"" + Name(f.CBit()) + "\"]";
}
static std::string Args(const std::string& s) {
  return std::string("[\"") + Name(Bit(s[0])) + "\",\"" + Name(Bit(s[1])) + "\",\"" +
         Name(Bit(s[2])) + "\",\"" + Name(Bit(s[3])) + "\"]";
}
static std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
static std::string Unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
static ReturnConvention Conv(const std::string& s) {
  if (s == "default") return ReturnConvention();
  if (s == "noreturn") return ReturnConvention(NoReturn());
  return ReturnConvention(Make(s));
}
static std::string ConvArgs(const std::string& s) {
  if (s == "default" || s == "noreturn") return "[\"" + s + "\"]";
  return Json(Make(s));
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, a, b;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\",\"q\":[";
    bool first = true;
    while (op != "begin" && in >> a) {
      if (!first) o << ",";
      first = false;
      if (op == "make") {
        o << "[" << Args(a) << "," << Json(Make(a)) << "]";
      } else if (op == "merge") {
        in >> b;
        StatusFlags f = Make(a), g = Make(b);
        StatusFlags h = f | g, k = f;
        k |= g;
        if (h != k) h = StatusFlags();
        ExecutionState s, t;
        s.Flags() = f;
        t.Flags() = g;
        if ((s | t).Flags() != k) k = StatusFlags();
        s |= t;
        if (s.Flags() != k) k = StatusFlags();
        if (h != k) k = f;
        o << "[" << Json(f) << "," << Json(g) << "," << Json(h == k ? h : k) << "]";
      } else if (op == "setm" || op == "setx" || op == "setc") {
        in >> b;
        StatusFlags f = Make(a), g = f;
        if (op == "setm") g.SetMBit(Bit(b[0]));
        if (op == "setx") g.SetXBit(Bit(b[0]));
        if (op == "setc") g.SetCBit(Bit(b[0]));
        o << "[" << Json(f) << ",\"" << Name(Bit(b[0])) << "\"," << Json(g) << "]";
      } else if (op == "incoming") {
        StatusFlags f = Make(a), g = f;
        g.SetIncoming();
        if (ExecutionState(f).Flags() != g) g = f;
        o << "[" << Json(f) << "," << Json(g) << "]";
      } else if (op == "xce") {
        StatusFlags f = Make(a), g = f;
        g.ExchangeCE();
        o << "[" << Json(f) << "," << Json(g) << "]";
      } else if (op == "name") {
        std::string s = Unhex(a);
        auto f = StatusFlags::FromName(s);
        o << "[" << Quote(s) << "," << (f ? Json(*f) : "[\"none\",\"none\",\"none\",\"none\"]") << "]";
      } else if (op == "show") {
        StatusFlags f = Make(a);
        o << "[" << Json(f) << "," << Quote(f.ToName()) << "]";
      } else if (op == "suffix") {
        o << "[" << ConvArgs(a) << "," << Quote(Conv(a).ToSuffixString()) << "]";
      } else if (op == "apply") {
        in >> b;
        ExecutionState s;
        s.Flags() = Make(b);
        ReturnConvention r = Conv(a), copy = r;
        copy.ApplyTo(&s);
        bool kinds = r.IsDefault() == (a == "default") && r.IsExitCall() == (a == "noreturn") &&
                     r.YieldFlags().has_value() == (a.size() == 4) &&
                     (a.size() != 4 || *r.YieldFlags() == Make(a));
        o << "[" << ConvArgs(a) << "," << Json(Make(b)) << ","
          << (kinds ? Json(s.Flags()) : "[\"x\",\"x\",\"x\",\"x\"]") << "]";
      } else if (op == "same") {
        in >> b;
        StatusFlags f = Make(a), g = Make(b);
        bool e = f == g, n = f != g;
        o << "[" << Json(f) << "," << Json(g) << "," << (n ? "true" : "false") << "," << (e ? "true" : "false") << "]";
      } else {
        return 3;
      }
    }
    std::cout << o.str() << "]}" << std::endl;
  }
  return 0;
}
