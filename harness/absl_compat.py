#!/usr/bin/env python3
"""absl_compat.py DEST

Copies the installed abseil headers to DEST/absl and makes absl::string_view
interchangeable with std::string_view (and absl::optional / variant aliases of
the std ones), which is what the abseil release pinned by vslashg/nsasm does.
With DEST first on the include path the whole repository compiles unmodified
against the system's abseil libraries.  No file of /repo is changed.
"""
import os
import shutil
import sys

SRC = "/usr/include/absl"


def sub(path, old, new, count=1):
    with open(path) as f:
        text = f.read()
    if text.count(old) < 1:
        sys.exit(f"absl_compat: {path}: expected text not found: {old!r}")
    with open(path, "w") as f:
        f.write(text.replace(old, new, count))


def main():
    dest = os.path.join(sys.argv[1], "absl")
    stamp = os.path.join(sys.argv[1], "absl.ok")
    if os.path.exists(stamp):
        return
    if os.path.exists(dest):
        shutil.rmtree(dest)
    os.makedirs(sys.argv[1], exist_ok=True)
    shutil.copytree(SRC, dest)
    for opt in ("ANY", "OPTIONAL", "VARIANT"):
        sub(f"{dest}/base/options.h", f"#define ABSL_OPTION_USE_STD_{opt} 0",
            f"#define ABSL_OPTION_USE_STD_{opt} 1")
    sv = f"{dest}/strings/string_view.h"
    sub(sv, "#include <string>\n", "#include <string>\n#include <string_view>\n")
    sub(sv, "  // NOTE: Harmlessly omitted to work around gdb bug.\n", """\
  constexpr string_view(std::string_view sv)  // NOLINT
      : ptr_(sv.data()), length_(sv.size()) {}
  constexpr operator std::string_view() const {  // NOLINT
    return std::string_view(ptr_, length_);
  }

  // NOTE: Harmlessly omitted to work around gdb bug.
""")
    sub(f"{dest}/strings/str_cat.h",
        "  AlphaNum(absl::string_view pc) : piece_(pc) {}",
        "  AlphaNum(std::string_view pc) : piece_(pc) {}  // NOLINT\n"
        "  AlphaNum(absl::string_view pc) : piece_(pc) {}")
    sub(f"{dest}/strings/internal/str_split_internal.h",
        "  ConvertibleToStringView(absl::string_view s) ",
        "  ConvertibleToStringView(std::string_view s)  // NOLINT\n"
        "      : value_(s) {}\n"
        "  ConvertibleToStringView(absl::string_view s) ")
    open(stamp, "w").close()


main()
