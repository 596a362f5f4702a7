// Drives DataRange and RangeMap.  One command per line, one JSON line back.
//   begin | claim LOC LEN | chunk LO HI | has A... | insert VAL n LOC LEN ... | look A...
#include <iostream>
#include <sstream>
#include <string>

#include "nsasm/ranges.h"

using nsasm::Address;

static int V(Address a) { return a.Bank() * 65536 + a.BankAddress(); }

static std::string Chunks(const nsasm::DataRange& r) {
  std::ostringstream o;
  o << "[";
  bool first = true;
  for (const auto& c : r.Chunks()) {
    if (!first) o << ",";
    first = false;
    o << "[" << V(c.first) << "," << V(c.second) << "]";
  }
  o << "]";
  return o.str();
}

int main() {
  nsasm::DataRange range;
  nsasm::RangeMap<std::string> map;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    if (op == "begin") {
      range = nsasm::DataRange();
      map = nsasm::RangeMap<std::string>();
      std::cout << "{\"op\":\"begin\"}";
    } else if (op == "claim") {
      unsigned loc;
      int len;
      in >> loc >> len;
      bool ret = range.ClaimBytes(Address(loc), len);
      std::cout << "{\"op\":\"claim\",\"loc\":" << loc << ",\"len\":" << len
                << ",\"ret\":" << (ret ? "true" : "false")
                << ",\"chunks\":" << Chunks(range) << "}";
    } else if (op == "chunk") {
      unsigned lo, hi;
      in >> lo >> hi;
      bool ret = range.ClaimBytes(nsasm::Chunk(Address(lo), Address(hi)));
      std::cout << "{\"op\":\"chunk\",\"lo\":" << lo << ",\"hi\":" << hi
                << ",\"ret\":" << (ret ? "true" : "false")
                << ",\"chunks\":" << Chunks(range) << "}";
    } else if (op == "has") {
      std::cout << "{\"op\":\"has\",\"q\":[";
      unsigned a;
      bool first = true;
      while (in >> a) {
        if (!first) std::cout << ",";
        first = false;
        std::cout << "[" << a << ","
                  << (range.Contains(Address(a)) ? "true" : "false") << "]";
      }
      std::cout << "]}";
    } else if (op == "insert") {
      int val, n;
      in >> val >> n;
      nsasm::DataRange r;
      for (int i = 0; i < n; ++i) {
        unsigned loc;
        int len;
        in >> loc >> len;
        (void)r.ClaimBytes(Address(loc), len);
      }
      bool ret = map.Insert(r, std::to_string(val));
      std::cout << "{\"op\":\"insert\",\"val\":" << val
                << ",\"ret\":" << (ret ? "true" : "false")
                << ",\"chunks\":" << Chunks(r) << "}";
    } else if (op == "look") {
      std::cout << "{\"op\":\"look\",\"q\":[";
      unsigned a;
      bool first = true;
      while (in >> a) {
        if (!first) std::cout << ",";
        first = false;
        auto v = map.Lookup(Address(a));
        std::cout << "[" << a << "," << (v ? *v : std::string("-1")) << ","
                  << (map.Contains(Address(a)) ? "true" : "false") << "]";
      }
      std::cout << "]}";
    } else {
      return 3;
    }
    std::cout << std::endl;
  }
  return 0;
}
