#ifndef VERIF_DG_CASTER_H
#define VERIF_DG_CASTER_H
#include <dynamic-graph/linear-algebra.h>
#include <dynamic-graph/exception-abstract.h>
#include <iostream>
#include <sstream>
#include <boost/any.hpp>
namespace dynamicgraph {
template <typename T> struct signal_io_base {
  static void disp(const T &v, std::ostream &os) { (void)v; (void)os; }
  static void trace(const T &v, std::ostream &os) { disp(v, os); }
  static T cast(std::istringstream &) { return T(); }
  static void run() {}
};
template <typename T> struct signal_io_unimplemented {
  static void disp(const T &, std::ostream &) {}
  static T cast(std::istringstream &) { throw 1; }
  static void trace(const T &, std::ostream &) {}
};
template <typename T> struct signal_io : signal_io_base<T> {};
template <class T> void signal_disp(const T &v, std::ostream &os) { signal_io<T>::disp(v, os); }
}
#endif
