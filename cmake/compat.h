/* Force-included into every C++ file by /opt/vp/build.sh: glibc 2.32 removed sys_siglist,
   which OCTOPUSSY/src/Dispatcher.cc and WPInterface.cc index. */
#ifdef __cplusplus
#include <cstring>
namespace vp_compat {
  struct SysSigList { const char * operator [] (int sig) const { return ::strsignal(sig); } };
  static const SysSigList siglist = {};
}
#define sys_siglist (::vp_compat::siglist)
#endif
