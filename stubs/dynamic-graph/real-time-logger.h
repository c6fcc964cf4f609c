#ifndef VERIF_DG_RTL_H
#define VERIF_DG_RTL_H
#include <iostream>
namespace dynamicgraph {
class RTLoggerStream {
 public:
  template <class T> RTLoggerStream &operator<<(const T &) { return *this; }
  RTLoggerStream &operator<<(std::ostream &(*)(std::ostream &)) { return *this; }
};
class LoggerIOStream {};
class RealTimeLogger { public: static RealTimeLogger &instance() { static RealTimeLogger r; return r; } RTLoggerStream front() { return RTLoggerStream(); } };
}
#define dgRTLOG() ::dynamicgraph::RealTimeLogger::instance().front()
#endif
