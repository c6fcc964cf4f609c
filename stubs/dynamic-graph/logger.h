#ifndef VERIF_DG_LOGGER_H
#define VERIF_DG_LOGGER_H
#include <dynamic-graph/fwd.hh>
#include <dynamic-graph/real-time-logger.h>
#include <iostream>
namespace dynamicgraph {
enum MsgType { MSG_TYPE_TYPE_BITS = 1, MSG_TYPE_DEBUG = 8, MSG_TYPE_INFO = 4, MSG_TYPE_WARNING = 2, MSG_TYPE_ERROR = 1, MSG_TYPE_DEBUG_STREAM = 9, MSG_TYPE_INFO_STREAM = 5, MSG_TYPE_WARNING_STREAM = 3, MSG_TYPE_ERROR_STREAM = 11 };
enum LoggerVerbosity { VERBOSITY_ALL, VERBOSITY_INFO_WARNING_ERROR, VERBOSITY_WARNING_ERROR, VERBOSITY_ERROR, VERBOSITY_NONE };
enum LoggerIODirection { };
class Logger {
 public:
  Logger(double = 0.001, double = 1.0) {}
  void countdown() {}
  RTLoggerStream stream() { return RTLoggerStream(); }
  RTLoggerStream stream(MsgType, const std::string & = "") { return RTLoggerStream(); }
  void sendMsg(std::string, MsgType, const std::string & = "") {}
  bool setTimeSample(double) { return true; }
  double getTimeSample() { return 0.001; }
  bool setStreamPrintPeriod(double) { return true; }
  double getStreamPrintPeriod() { return 1; }
  void setVerbosity(LoggerVerbosity) {}
  LoggerVerbosity getVerbosity() { return VERBOSITY_NONE; }
};
}
#endif
#ifndef VERIF_TOSTRING
#define VERIF_TOSTRING
#include <sstream>
#include <vector>
namespace dynamicgraph {
template <typename T> std::string toString(const T &v, const int = 3, const int = -1) { std::stringstream ss; ss << v; return ss.str(); }
template <typename T> std::string toString(const std::vector<T> &, const int = 3, const int = -1, const std::string = ", ") { return ""; }
}
#endif
