// stand-in for HighFive (not installed): writes nothing
#ifndef VERIF_STUB_HIGHFIVE
#define VERIF_STUB_HIGHFIVE
#include <string>
#include <vector>
namespace HighFive {
  class File {
  public:
    enum : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Excl = 4, Create = 8, Overwrite = 2 };
    enum class AccessMode : unsigned { ReadOnly = 0, ReadWrite = 1, Truncate = 2, Overwrite = 2 };
    explicit File(const std::string &name, unsigned mode = ReadOnly) {}
    explicit File(const std::string &name, AccessMode mode) {}
    void flush() {}
    bool exist(const std::string &) const { return false; }
  };
}
#endif
