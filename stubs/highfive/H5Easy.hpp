#ifndef VERIF_STUB_H5EASY
#define VERIF_STUB_H5EASY
#include "highfive.hpp"
namespace H5Easy {
  using HighFive::File;
  enum class DumpMode { Create, Overwrite };
  template <class T> void dump(File &file, const std::string &path, const T &data);
  template <class T> void dump(File &file, const std::string &path, const T &data, DumpMode mode);
  template <class T> T load(const File &file, const std::string &path);
}
#endif
