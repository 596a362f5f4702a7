// Drives nsasm/rom.* and memory.*.  One command per line, one JSON line back.
#include <cstdio>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "nsasm/rom.h"

using nsasm::Address;

namespace {

struct Image {
  long size = 0;
  int k = 0;
  std::vector<std::pair<long, int>> patch;
};

int Pattern(int k, long i) {
  return ((i % 256) * 37 + ((i / 256) % 256) * 101 + (i / 65536) * 59 + k * 17 +
          (i % 251)) % 256;
}

std::vector<uint8_t> Data(const Image& img) {
  std::vector<uint8_t> d(img.size);
  for (long i = 0; i < img.size; ++i) d[i] = Pattern(img.k, i);
  for (auto& p : img.patch)
    if (p.first < img.size) d[p.first] = p.second;
  return d;
}

std::string Json(const Image& img) {
  std::ostringstream o;
  o << "{\"size\":" << img.size << ",\"k\":" << img.k << ",\"patch\":[";
  for (size_t i = 0; i < img.patch.size(); ++i)
    o << (i ? "," : "") << "[" << img.patch[i].first << ","
      << img.patch[i].second << "]";
  o << "]}";
  return o.str();
}

template <typename C>
std::string List(const C& c) {
  std::ostringstream o;
  o << "[";
  bool first = true;
  for (auto v : c) {
    if (!first) o << ",";
    first = false;
    o << long(v);
  }
  o << "]";
  return o.str();
}

const char* B(bool b) { return b ? "true" : "false"; }

std::vector<long> HexNumbers(const std::string& s) {
  std::vector<long> out;
  for (size_t i = 0; i < s.size(); ++i) {
    size_t j = 0;
    if (s[i] == '$') j = i + 1;
    else if (s[i] == '0' && i + 1 < s.size() && s[i + 1] == 'x') j = i + 2;
    if (j && j < s.size() && isxdigit(s[j])) {
      out.push_back(strtol(s.c_str() + j, nullptr, 16));
      while (j < s.size() && isxdigit(s[j])) ++j;
      i = j - 1;
    }
  }
  return out;
}

struct State {
  Image img;
  nsasm::Mapping mode = nsasm::kLoRom;
  std::string file;  // empty: ROM built in memory
  std::vector<uint8_t> header;
  bool loaded = false;
  std::unique_ptr<nsasm::Rom> rom;
  std::unique_ptr<nsasm::RomOverwriter> over;
  std::unique_ptr<nsasm::RomIdentityTest> ident;

  std::unique_ptr<nsasm::Rom> Make() const {
    if (file.empty())
      return std::make_unique<nsasm::Rom>(mode, "mem", header, Data(img));
    auto r = nsasm::LoadRomFile(file);
    if (!r.ok()) return nullptr;
    return std::move(*r);
  }
};

nsasm::Mapping ParseMode(const std::string& s) {
  return s == "lo" ? nsasm::kLoRom : s == "hi" ? nsasm::kHiRom : nsasm::kExHiRom;
}

Image ParseImage(std::istream& in) {
  Image img;
  int n;
  in >> img.size >> img.k >> n;
  for (int i = 0; i < n; ++i) {
    long o;
    int b;
    in >> o >> b;
    img.patch.emplace_back(o, b);
  }
  return img;
}

}  // namespace

int main() {
  State st;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    in >> op;
    std::ostringstream o;
    if (op == "begin") {  // begin MODE HDR SIZE K npatch (off byte)*
      std::string mode;
      int hdr;
      in >> mode >> hdr;
      st = State();
      st.mode = ParseMode(mode);
      st.header.resize(hdr);
      st.img = ParseImage(in);
      for (int i = 0; i < hdr; ++i) st.header[i] = Pattern(st.img.k + 1, i);
      st.rom = st.Make();
      st.loaded = true;
      o << "{\"op\":\"begin\",\"mode\":\"" << mode << "\",\"hdr\":" << hdr
        << ",\"img\":" << Json(st.img) << "}";
    } else if (op == "half") {
      std::string mode;
      int hb;
      in >> mode >> hb;
      auto m = ParseMode(mode);
      o << "{\"op\":\"half\",\"mode\":\"" << mode << "\",\"hb\":" << hb
        << ",\"runs\":[";
      long lo = -1, off = -2, prev = -2;
      int runs = 0;
      for (long a = hb * 32768L; a < (hb + 1) * 32768L; ++a) {
        auto r = nsasm::SnesToROMAddress(Address(uint32_t(a)), m);
        long v = r.ok() ? long(*r) : -1;
        bool cont = lo >= 0 && ((v == -1 && prev == -1) ||
                                (v != -1 && prev != -1 && v == prev + 1));
        if (!cont) {
          if (lo >= 0 && runs++ < 50)
            o << "[" << lo << "," << a - 1 << "," << off << "],";
          lo = a;
          off = v;
        }
        prev = v;
      }
      o << "[" << lo << "," << (hb + 1) * 32768L - 1 << "," << off << "]]}";
    } else if (op == "file") {  // file PATH SIZE K npatch ...  (SIZE of the file)
      st = State();
      in >> st.file;
      st.img = ParseImage(in);
      long size = st.img.size;
      if (size % 4096 == 512) {
        st.header.resize(512);
        for (int i = 0; i < 512; ++i) st.header[i] = Pattern(st.img.k + 1, i);
        st.img.size -= 512;
      }
      auto d = Data(st.img);
      std::ofstream f(st.file, std::ios::binary | std::ios::trunc);
      f.write((const char*)st.header.data(), st.header.size());
      f.write((const char*)d.data(), d.size());
      f.close();
      if (!f) return 4;
      o << "{\"op\":\"file\",\"size\":" << size << ",\"img\":" << Json(st.img)
        << "}";
    } else if (op == "load") {
      auto r = nsasm::LoadRomFile(st.file);
      st.loaded = r.ok();
      o << "{\"op\":\"load\",\"ok\":" << B(r.ok()) << "}";
      if (r.ok()) st.rom = std::move(*r);
    } else if (op == "loadbad") {
      std::string path;
      in >> path;
      auto r = nsasm::LoadRomFile(path);
      o << "{\"op\":\"loadbad\",\"ok\":" << B(r.ok()) << "}";
    } else if (!st.loaded) {
      o << "{\"op\":\"skip\"}";
    } else if (op == "read") {
      unsigned a;
      int n;
      in >> a >> n;
      auto r = st.rom->Read(Address(a), n);
      o << "{\"op\":\"read\",\"addr\":" << a << ",\"len\":" << n
        << ",\"ok\":" << B(r.ok()) << ",\"bytes\":";
      if (r.ok()) o << List(*r); else o << "[]";
      o << "}";
    } else if (op == "value") {
      int n;
      unsigned a;
      in >> n >> a;
      auto r = n == 1   ? st.rom->ReadByte(Address(a))
               : n == 2 ? st.rom->ReadWord(Address(a))
                        : st.rom->ReadLong(Address(a));
      o << "{\"op\":\"value\",\"n\":" << n << ",\"addr\":" << a
        << ",\"ok\":" << B(r.ok()) << ",\"val\":" << (r.ok() ? *r : -1) << "}";
    } else if (op == "write" || op == "compare") {
      unsigned a;
      int n;
      in >> a >> n;
      std::vector<uint8_t> d;
      for (int i = 0, b; i < n && in >> b; ++i) d.push_back(b);
      // exact-size heap copy, so that reads past the span are visible
      std::unique_ptr<uint8_t[]> heap(new uint8_t[d.size()]);
      std::copy(d.begin(), d.end(), heap.get());
      absl::Span<const uint8_t> span(heap.get(), d.size());
      bool ok;
      std::vector<long> at;
      if (op == "write") {
        if (!st.over)
          st.over = std::make_unique<nsasm::RomOverwriter>(st.Make());
        ok = st.over->Write(Address(a), span).ok();
      } else {
        if (!st.ident)
          st.ident = std::make_unique<nsasm::RomIdentityTest>(st.Make());
        auto r = st.ident->Write(Address(a), span);
        ok = r.ok();
        if (!ok) at = HexNumbers(r.error().ToString());
      }
      o << "{\"op\":\"" << op << "\",\"addr\":" << a << ",\"bytes\":" << List(d)
        << ",\"ok\":" << B(ok);
      if (op == "compare") o << ",\"at\":" << List(at);
      o << "}";
    } else if (op == "save" || op == "savebad") {
      std::string path;
      in >> path;
      if (!st.over) st.over = std::make_unique<nsasm::RomOverwriter>(st.Make());
      bool ok = st.over->CreateFile(path).ok();
      if (op == "savebad") {
        o << "{\"op\":\"savebad\",\"ok\":" << B(ok) << "}";
      } else {
        std::ifstream f(path, std::ios::binary);
        std::vector<uint8_t> got((std::istreambuf_iterator<char>(f)),
                                 std::istreambuf_iterator<char>());
        auto base = Data(st.img);
        size_t h = st.header.size();
        bool hs = got.size() >= h &&
                  std::equal(st.header.begin(), st.header.end(), got.begin());
        o << "{\"op\":\"save\",\"ok\":" << B(ok) << ",\"size\":" << got.size()
          << ",\"hdrsame\":" << B(hs) << ",\"diff\":[";
        int n = 0;
        for (size_t i = 0; i < base.size() && i + h < got.size(); ++i) {
          if (base[i] != got[i + h] && n < 5000) {
            o << (n++ ? "," : "") << "[" << i << "," << int(got[i + h]) << "]";
          }
        }
        o << "]}";
        remove(path.c_str());
      }
    } else {
      return 3;
    }
    std::cout << o.str() << std::endl;
  }
  return 0;
}
