// A plugin with call sites: built as a shared object, loaded, used and unloaded by h_own.
#include <cstring>
#include <string>
#include "g3log/g3log.hpp"
#include "own_lib.hpp"
#ifdef PRETTY_FUNCTION
#define FN __PRETTY_FUNCTION__
#else
#define FN __FUNCTION__
#endif
namespace {
const LEVELS& pluginLevel() {
   // destroyed when the library is unloaded
   static const LEVELS l(INFO.value + 1, "PLUGIN_LEVEL_WITH_A_NAME_THAT_IS_LONG_ENOUGH_FOR_THE_HEAP");
   return l;
}
void note(LibExp* e, int line, const char* fn, const char* expr, const LEVELS& l) {
   e->file = __FILE__;
   e->line = line;
   e->fn = fn;
   e->expr = expr;
   e->level = l.text;
   e->value = l.value;
}
struct Plug {
   virtual ~Plug() {}
   virtual void log(const std::string& t, LibExp* e) { note(e, __LINE__, FN, "", pluginLevel()); LOG(pluginLevel()) << t; }
};
template <class T> void templ(const T& t, LibExp* e) { note(e, __LINE__, FN, "", WARNING); LOG(WARNING) << t; }
}  // namespace
extern "C" void vf_plugin(int kind, const char* text, LibExp* e) {
   std::string t(text);
   switch (kind) {
   case 0: note(e, __LINE__, FN, "", INFO); LOG(INFO) << t; break;
   case 1: note(e, __LINE__, FN, "", INFO); LOGF(INFO, "%s", text); break;
   case 2: note(e, __LINE__, FN, "", pluginLevel()); LOG_IF(pluginLevel(), t.size() > 1) << t; break;
   case 3: { Plug p; p.log(t, e); break; }
   case 4: templ(t, e); break;
   case 5: { auto f = [&] { note(e, __LINE__, FN, "", pluginLevel()); LOGF_IF(pluginLevel(), true, "%s", text); }; f(); break; }
   case 6: { char area[4096]; snprintf(area, sizeof area, "%s", text); note(e, __LINE__, FN, "", WARNING); LOG(WARNING) << area; memset(area, 'Y', sizeof area); break; }
   case 7: note(e, __LINE__, FN, "t.empty() && (3 < 2)", g3::internal::CONTRACT); CHECK(t.empty() && (3 < 2)) << t; break;
   case 8: note(e, __LINE__, FN, "t.size() == 100000", g3::internal::CONTRACT); CHECKF(t.size() == 100000, "%s", text); break;
   case 9: note(e, __LINE__, FN, "", FATAL); LOG(FATAL) << t; break;
   }
}
