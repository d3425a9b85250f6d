// The recovery tool
#define PACKAGE "hogl"
#define PACKAGE_VERSION "1.0"
#include "tools/coredump.cc"
#include "tools/recovery-engine.cc"
#include "tools/recover.cc"
