// Drives the abstract stack (nsasm/execution_state.h).
#include <iostream>
#include <sstream>
#include <string>

#include "nsasm/parse.h"
#include "nsasm/statement.h"
#include "nsasm/token.h"

using namespace nsasm;

static const char* Name(BitState b) {
  return b == B_off ? "off" : b == B_on ? "on" : b == B_original ? "orig" : "unk";
}
static BitState Bit(const std::string& s) {
  return s == "off" ? B_off : s == "on" ? B_on : s == "orig" ? B_original : B_unknown;
}
static BitState Letter(char c) {
  return c == 'f' ? B_off : c == 'n' ? B_on : c == 'o' ? B_original : B_unknown;
}
static std::string Json(const StatusFlags& f) {
  return std::string("[\"") + Name(f.EBit()) + "\",\"" + Name(f.MBit()) + "\",\"" +
         Name(f.XBit()) + "\",\"" + Name(f.CBit()) + "\"]";
}
static RegisterValue Reg(const std::string& s, std::string* j) {
  std::string k = s.substr(0, s.find(':'));
  int v = std::stoi(s.substr(s.find(':') + 1));
  *j = "[\"" + k + "\"," + std::to_string(v) + "]";
  if (k == "val") return RegisterValue(uint16_t(v));
  return RegisterValue(k == "orig" ? RegisterValue::T_original : RegisterValue::T_unknown);
}
static std::string Claim(RegisterValue r) {
  if (r.HasValue()) return ",\"k\":\"val\",\"v\":" + std::to_string(*r);
  return r.type() == RegisterValue::T_original ? ",\"k\":\"orig\",\"v\":0"
                                                : ",\"k\":\"unk\",\"v\":0";
}
static const char* kNoFlags = ",\"f\":[\"unk\",\"unk\",\"unk\",\"unk\"]";
static std::string Raw(int v) {
  return ",\"k\":\"raw\",\"v\":" + std::to_string(v) + kNoFlags;
}
static std::string Claim(StackValue v) {
  switch (v.type()) {
    case StackValue::T_byte:
      return ",\"k\":\"byte\",\"v\":" + std::to_string(v.value()) + kNoFlags;
    case StackValue::T_flags: return ",\"k\":\"flags\",\"v\":0,\"f\":" + Json(v.flags());
    case StackValue::T_a_lo: return Raw(1000);
    case StackValue::T_a_hi: return Raw(1001);
    case StackValue::T_x_lo: return Raw(1002);
    case StackValue::T_x_hi: return Raw(1003);
    case StackValue::T_y_lo: return Raw(1004);
    case StackValue::T_y_hi: return Raw(1005);
    case StackValue::T_dbr: return Raw(1006);
    case StackValue::T_unknown: return std::string(",\"k\":\"unk\",\"v\":0") + kNoFlags;
    default: return Raw(-1);
  }
}
// Flags whose relevant width is `b`.  (Not every quadruple is a state.)
static StatusFlags Width(BitState b) {
  StatusFlags f(b == B_original ? B_original : B_off);
  f.SetMBit(b);
  f.SetXBit(b);
  return f;
}

int main() {
  Stack cur, kept[4];
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, reg, rv, bit, j;
    int n;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\"";
    if (op == "begin") {
      cur = Stack();
      for (auto& k : kept) k = Stack();
    } else if (op == "pushreg") {
      in >> reg >> rv >> bit;
      RegisterValue v = Reg(rv, &j);
      StatusFlags f = Width(Bit(bit));
      if (reg == "a") cur.PushA(v, f);
      if (reg == "x") cur.PushX(v, f);
      if (reg == "y") cur.PushY(v, f);
      o << ",\"reg\":\"" << reg << "\",\"rv\":" << j << ",\"bit\":\"" << bit << "\"";
    } else if (op == "pullreg") {
      in >> reg >> bit;
      StatusFlags f = Width(Bit(bit));
      RegisterValue v = reg == "a" ? cur.PullA(f) : reg == "x" ? cur.PullX(f) : cur.PullY(f);
      o << ",\"reg\":\"" << reg << "\",\"bit\":\"" << bit << "\"" << Claim(v);
    } else if (op == "pushbyte") {
      in >> n;
      if (n < 0) cur.PushByte(absl::optional<uint8_t>());
      else cur.PushByte(uint8_t(n));
      o << ",\"n\":" << n;
    } else if (op == "pushword") {
      in >> n;
      if (n < 0) cur.PushWord(absl::optional<uint16_t>());
      else cur.PushWord(uint16_t(n));
      o << ",\"n\":" << n;
    } else if (op == "pushbank") {
      in >> rv;
      cur.PushDBR(Reg(rv, &j));
      o << ",\"rv\":" << j;
    } else if (op == "pullbank") {
      o << Claim(cur.PullDBR());
    } else if (op == "pushflags") {
      in >> bit;
      StatusFlags f(Letter(bit[0]), Letter(bit[1]), Letter(bit[2]), Letter(bit[3]));
      cur.PushFlags(f);
      o << ",\"f\":" << Json(f);
    } else if (op == "pullbyte") {
      o << Claim(cur.PullByte());
    } else if (op == "abandon") {
      cur.Abandon();
    } else if (op == "swap") {
      std::swap(cur, kept[1]);
    } else if (op == "copies") {
      Stack a = cur, b = cur;
      b |= a;
      o << ",\"same\":" << (a == cur && b == cur ? "true" : "false");
    } else {
      in >> n;
      o << ",\"i\":" << n;
      if (op == "save") kept[n] = cur;
      else if (op == "load") cur = kept[n];
      else if (op == "join") cur |= kept[n];
      else return 3;
    }
    std::cout << o.str() << "}" << std::endl;
  }
  return 0;
}
