#ifndef DEMO_FMT_COLOR
#define DEMO_FMT_COLOR
#include <cstdio>
#include_next <fmt/color.h>
namespace fmt {
  template <class... A> void print(std::FILE *f, const text_style &, format_string<A...> s, A &&...a) { fmt::print(f, s, std::forward<A>(a)...); }
}
#endif
