// Drives nsasm/address.h and numeric_type.h; each command is a batch.
#include <cassert>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "nsasm/address.h"

using namespace nsasm;

static const std::vector<std::pair<std::string, NumericType>> types = {
    {"unknown", T_unknown}, {"byte", T_byte}, {"word", T_word}, {"long", T_long},
    {"signed_byte", T_signed_byte}, {"signed_word", T_signed_word},
    {"signed_long", T_signed_long}};

static NumericType Type(const std::string& s) {
  for (auto& t : types)
    if (t.first == s) return t.second;
  exit(3);
}
static std::string Name(NumericType t) { return "\"" + ToString(t) + "\""; }
static const char* B(bool b) { return b ? "true" : "false"; }
static int V(Address a) { return a.Bank() * 65536 + a.BankAddress(); }

template <typename T>
static std::string Order(T a, T b) {
  std::ostringstream o;
  o << B(a == b) << "," << B(a != b) << "," << B(a < b) << "," << B(a <= b)
    << "," << B(a > b) << "," << B(a >= b);
  return o.str();
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, s, s2;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\",\"q\":[";
    bool first = true;
    auto sep = [&]() -> std::ostream& {
      if (!first) o << ",";
      first = false;
      return o;
    };
    long x, y;
    if (op == "begin") {
    } else if (op == "cast") {
      while (in >> s >> x)
        sep() << "[" << Name(Type(s)) << "," << x << "," << CastTo(Type(s), int(x)) << "]";
    } else if (op == "combine") {
      while (in >> s >> s2)
        sep() << "[" << Name(Type(s)) << "," << Name(Type(s2)) << ","
              << Name(ArtihmeticConversion(Type(s), Type(s2))) << "]";
    } else if (op == "type") {
      while (in >> s)
        sep() << "[" << Name(Type(s)) << "," << Name(Unsigned(Type(s))) << ","
              << Name(Signed(Type(s))) << "," << B(IsSigned(Type(s))) << "]";
    } else if (op == "advance") {
      while (in >> x >> y)
        sep() << "[" << x << "," << y << "," << V(Address(uint32_t(x)).AddWrapped(int(y))) << "]";
    } else if (op == "plus") {
      while (in >> x >> y)
        sep() << "[" << x << "," << y << "," << V(Address(uint32_t(x)).AddUnwrapped(int(y))) << "]";
    } else if (op == "diff") {
      while (in >> x >> y) {
        auto r = Address(uint32_t(x)).SubtractWrapped(Address(uint32_t(y)));
        sep() << "[" << x << "," << y << "," << B(r.ok()) << "," << (r.ok() ? *r : 0) << "]";
      }
    } else if (op == "parts") {
      while (in >> x) {
        Address a{uint32_t(x)};
        sep() << "[" << x << "," << a.Bank() << "," << a.BankAddress() << ",\""
              << a.ToString() << "\","
              << V(Address(uint8_t(a.Bank()), a.BankAddress())) << "]";
      }
    } else if (op == "order") {
      while (in >> x >> y) {
        Address a{uint32_t(x)}, b{uint32_t(y)};
        sep() << "[" << x << "," << y << "," << Order(a, b) << ","
              << Order(LabelValue(a), LabelValue(b)) << "]";
      }
    } else if (op == "label") {
      while (in >> x >> s) {
        LabelValue v{Address(uint32_t(x))};
        bool same = LabelValue::FromInt(int(x)) == v;
        sep() << "[" << x << "," << (same ? v.ToInt() : -1) << "," << Name(Type(s)) << ","
              << v.ToNumber(Type(s)) << "," << V(v.ToAddress()) << "]";
      }
    } else {
      return 3;
    }
    std::cout << o.str() << "]}" << std::endl;
  }
  return 0;
}
