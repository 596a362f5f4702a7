// Drives nsasm/mnemonic.*.  Texts arrive hex-encoded, so any byte can occur.
//   begin | print KIND ITEM | printraw KIND NUMBER | parse KIND HEXTEXT | all KIND
#include <iostream>
#include <map>
#include <sstream>
#include <string>

#include "nsasm/mnemonic.h"

using namespace nsasm;

#define X(n) {"M_" #n, M_##n},
#define P(n) {"PM_" #n, PM_##n},
#define D(n) {"D_" #n, D_##n},
static const std::map<std::string, Mnemonic> mnemonics = {
    X(adc) X(and) X(asl) X(bit) X(cld) X(cli) X(clv) X(cmp) X(cpx) X(cpy) X(dec)
    X(dex) X(dey) X(eor) X(inc) X(inx) X(iny) X(lda) X(ldx) X(ldy) X(lsr) X(mvn)
    X(mvp) X(nop) X(ora) X(pea) X(pei) X(per) X(pha) X(phb) X(phd) X(phk) X(phx)
    X(phy) X(pla) X(plb) X(pld) X(plx) X(ply) X(rol) X(ror) X(sbc) X(sed) X(sei)
    X(sta) X(stp) X(stx) X(sty) X(stz) X(tax) X(tay) X(tcd) X(tcs) X(tdc) X(trb)
    X(tsb) X(tsc) X(tsx) X(txa) X(txs) X(txy) X(tya) X(tyx) X(wai) X(wdm) X(xba)
    X(bcc) X(bcs) X(beq) X(bmi) X(bne) X(bpl) X(bra) X(brk) X(brl) X(bvc) X(bvs)
    X(cop) X(jmp) X(jsl) X(jsr) X(rti) X(rtl) X(rts) X(clc) X(php) X(plp) X(rep)
    X(sec) X(sep) X(xce) P(add) P(sub)};
static const std::map<std::string, Suffix> suffixes = {{"S_b", S_b}, {"S_w", S_w}};
static const std::map<std::string, DirectiveName> directives = {
    D(begin) D(db) D(dl) D(dw) D(end) D(entry) D(equ) D(halt) D(mode) D(module)
    D(org) D(remote)};

template <typename T>
static std::string Item(const std::map<std::string, T>& m, T v) {
  for (auto& p : m)
    if (p.second == v) return p.first;
  return "item#" + std::to_string(int(v));
}

static std::string Quote(std::string_view s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

static std::string Unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, kind, arg;
    in >> op >> kind >> arg;
    std::ostringstream o;
    o << "{\"op\":";
    if (op == "begin") {
      o << "\"begin\"";
    } else if (op == "print" || op == "printraw") {
      std::string_view name;
      bool raw = op == "printraw";
      int n = raw ? std::stoi(arg) : 0;
      if (kind == "mnemonic")
        name = ToString(raw ? Mnemonic(n) : mnemonics.at(arg));
      else if (kind == "suffix")
        name = ToString(raw ? Suffix(n) : suffixes.at(arg));
      else
        name = ToString(raw ? DirectiveName(n) : directives.at(arg));
      o << "\"print\",\"kind\":\"" << kind << "\",\"item\":"
        << Quote(raw ? "#" + arg : arg) << ",\"name\":" << Quote(name);
    } else if (op == "parse") {
      std::string text = Unhex(arg), item = "none";
      if (kind == "mnemonic") {
        auto r = ToMnemonic(text);
        if (r) item = Item(mnemonics, *r);
      } else if (kind == "suffix") {
        auto r = ToSuffix(text);
        if (r) item = Item(suffixes, *r);
      } else {
        auto r = ToDirectiveName(text);
        if (r) item = Item(directives, *r);
      }
      o << "\"parse\",\"kind\":\"" << kind << "\",\"text\":" << Quote(text)
        << ",\"item\":" << Quote(item);
    } else if (op == "all") {
      o << "\"all\",\"kind\":\"" << kind << "\",\"items\":[";
      bool first = true;
      if (kind == "mnemonic") {
        for (auto m : AllMnemonics()) {
          o << (first ? "" : ",") << Quote(Item(mnemonics, m));
          first = false;
        }
      } else {
        for (auto m : AllSuffixes()) {
          o << (first ? "" : ",") << Quote(Item(suffixes, m));
          first = false;
        }
      }
      o << "]";
    } else {
      return 3;
    }
    std::cout << o.str() << "}" << std::endl;
  }
  return 0;
}
