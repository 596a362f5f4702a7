// Drives the tokenizer and parser: lines and expressions of source text.
//   env name value ...   fixes the values of names
//   line =hex ...        parses lines
//   expr =hex ...        parses expressions
#include <cassert>
#include <algorithm>
#include <deque>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "isa_names.h"
#include "nsasm/parse.h"

using namespace nsasm;

static const char* B(bool b) { return b ? "true" : "false"; }
static std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\' || c < 32 || c > 126) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}
static std::string Unhex(const std::string& h) {
  std::string o;
  for (size_t i = 1; i + 1 < h.size(); i += 2)
    o += char(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
struct Env : LookupContext {
  std::map<std::string, int> v;
  ErrorOr<int> Lookup(const FullIdentifier& id) const override {
    auto it = v.find(id.ToString());
    if (it == v.end()) return Error("unknown");
    return it->second;
  }
};
static const char* TypeName(NumericType t) {
  switch (t) {
    case T_byte: return "byte";
    case T_word: return "word";
    case T_long: return "long";
    case T_signed_byte: return "signed byte";
    case T_signed_word: return "signed word";
    case T_signed_long: return "signed long";
    default: return "unknown";
  }
}
static Env env;
static const char* Name(BitState b) {
  return b == B_off ? "off" : b == B_on ? "on" : b == B_original ? "orig" : "unk";
}
static std::string Json(const StatusFlags& f) {
  return std::string("{\"e\":\"") + Name(f.EBit()) + "\",\"m\":\"" + Name(f.MBit()) +
         "\",\"x\":\"" + Name(f.XBit()) + "\",\"c\":\"" + Name(f.CBit()) + "\"}";
}
static std::string Tag(const std::string& t) {
  return "{\"e\":\"" + t + "\",\"m\":\"" + t + "\",\"x\":\"" + t + "\",\"c\":\"" + t + "\"}";
}
static std::string Json(const ReturnConvention& r) {
  if (r.IsDefault()) return Tag("default");
  if (r.IsExitCall()) return Tag("noreturn");
  return Json(*r.YieldFlags());
}
struct AllLocal : IsLocalContext {
  bool IsLocal(const FullIdentifier&) const override { return false; }
};
static std::string Json(const ExpressionOrNull& e) {
  if (!e) return "{\"is\":false,\"ok\":false,\"v\":0,\"ty\":\"unknown\",\"id\":\"\",\"names\":[]}";
  auto v = e.Evaluate(env);
  auto s = e.SimpleIdentifier();
  std::string n;
  for (auto& x : e.ExternalNamesReferenced(AllLocal()))
    n += (n.empty() ? "" : ",") + Quote(x.ToString());
  std::ostringstream o;
  o << "{\"is\":true,\"ok\":" << B(v.ok()) << ",\"v\":" << (v.ok() ? *v : 0) << ",\"ty\":\""
    << TypeName(e.Type()) << "\",\"id\":" << Quote(s ? *s : "") << ",\"names\":[" << n << "]}";
  return o.str();
}
using Entity = absl::variant<Statement, ParsedLabel>;
static std::string Text(const Entity& e) {
  if (auto* s = absl::get_if<Statement>(&e)) return s->ToString();
  return absl::get<ParsedLabel>(e).ToString();
}
static std::string Dump(const Entity& e) {
  std::string k = "label", name, suf, mode, list;
  ExpressionOrNull a, b;
  std::string flags = Tag("default"), ret = Tag("default");
  bool exported = false;
  if (auto* l = absl::get_if<ParsedLabel>(&e)) {
    name = l->Identifier();
    exported = l->IsExported();
  } else if (auto* i = absl::get<Statement>(e).Instruction()) {
    k = "ins";
    name = NameOf(kMnemonics, i->mnemonic);
    suf = i->suffix == S_b ? "b" : i->suffix == S_w ? "w" : "";
    mode = NameOf(kModes, i->addressing_mode);
    a = i->arg1;
    b = i->arg2;
    ret = Json(i->return_convention);
  } else {
    auto* d = absl::get<Statement>(e).Directive();
    k = "dir";
    name = std::string(ToString(d->name));
    name = name.empty() ? "?" : name.substr(1);
    for (char& c : name) c = tolower(c);
    a = d->argument;
    for (auto& x : d->list_argument) list += (list.empty() ? "" : ",") + Json(x);
    DirectiveType t = DirectiveTypeByName(d->name);
    if (t == DT_flag_arg || t == DT_calling_convention_arg || t == DT_remote_arg)
      flags = Json(d->flag_state_argument);
    ret = Json(d->return_convention_argument);
  }
  return "{\"k\":\"" + k + "\",\"name\":" + Quote(name) + ",\"suf\":\"" + suf + "\",\"mode\":\"" +
         mode + "\",\"a\":" + Json(a) + ",\"b\":" + Json(b) + ",\"list\":[" + list +
         "],\"flags\":" + flags + ",\"ret\":" + ret + ",\"exported\":" + B(exported) + "}";
}
static ErrorOr<std::vector<Entity>> ParseText(const std::string& s) {
  auto t = Tokenize(s, Location("f", 1));
  NSASM_RETURN_IF_ERROR(t);
  return Parse(*t);
}
static std::string List(const std::vector<Entity>& es, bool text) {
  std::string o;
  for (auto& e : es) o += (o.empty() ? "" : ",") + (text ? Quote(Text(e)) : Dump(e));
  return "[" + o + "]";
}

int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, h;
    in >> op;
    std::ostringstream o;
    o << "{\"op\":\"" << op << "\",\"q\":[";
    bool first = true;
    auto sep = [&]() -> std::ostream& {
      if (!first) o << ",";
      first = false;
      return o;
    };
    if (op == "begin") {
    } else if (op == "env") {
      int v;
      env.v.clear();
      while (in >> h >> v) {
        env.v[h] = v;
        sep() << "{\"n\":" << Quote(h) << ",\"v\":" << v << "}";
      }
    } else if (op == "line") {
      while (in >> h) {
        std::string s = Unhex(h);
        auto r = ParseText(s);
        sep() << "{\"src\":" << Quote(s) << ",\"ok\":" << B(r.ok()) << ",\"es\":"
              << (r.ok() ? List(*r, false) : "[]") << ",\"text\":" << (r.ok() ? List(*r, true) : "[]")
              << ",\"again\":[";
        // each printed entity, read back on its own
        if (r.ok())
          for (size_t i = 0; i < r->size(); ++i) {
            auto q = ParseText(Text((*r)[i]));
            o << (i ? "," : "") << "{\"ok\":" << B(q.ok()) << ",\"es\":"
              << (q.ok() ? List(*q, false) : "[]") << "}";
          }
        o << "]}";
      }
    } else if (op == "expr") {
      while (in >> h) {
        std::string s = Unhex(h);
        auto r = ParseExpression(s);
        sep() << "{\"src\":" << Quote(s) << ",\"ok\":" << B(r.ok()) << ",\"e\":"
              << (r.ok() ? Json(*r) : Json(ExpressionOrNull())) << ",\"look\":"
              << B(r.ok() && r->RequiresLookup()) << "}";
      }
    } else {
      return 3;
    }
    std::cout << o.str() << "]}" << std::endl;
  }
  return 0;
}
