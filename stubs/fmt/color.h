// Analysis-only adapter: system fmt 9.1 plus the fmt>=11 print() signature that the project uses.
#ifndef VERIF_STUB_FMT_COLOR
#define VERIF_STUB_FMT_COLOR
#include <cstdio>
#include_next <fmt/color.h>
namespace fmt {
  template <class... A> void print(std::FILE *f, const text_style &ts, format_string<A...> s, A &&...a);
}
#endif
