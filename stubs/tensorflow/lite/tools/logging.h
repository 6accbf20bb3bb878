#ifndef LCESIM_LOGGING_H_
#define LCESIM_LOGGING_H_
#include <sstream>
#include <string>
extern "C" void lcesim_log(int severity, const char* text);
namespace tflite { namespace logging {
enum { INFO = 0, WARN = 1, WARNING = 1, ERROR = 2, FATAL = 3 };
class LoggingWrapper {
 public:
  explicit LoggingWrapper(int s) : s_(s) {}
  std::stringstream& Stream() { return ss_; }
  ~LoggingWrapper() {
    try { lcesim_log(s_, ss_.str().c_str()); } catch (...) {}  // no memory: no message
  }
 private:
  std::stringstream ss_;
  int s_;
};
}}
#define TFLITE_LOG(severity) ::tflite::logging::LoggingWrapper(::tflite::logging::severity).Stream()
#endif
