#ifndef VERIF_DG_COMMAND_H
#define VERIF_DG_COMMAND_H
#include <dynamic-graph/value.h>
#include <boost/assign/list_of.hpp>
#include <boost/function.hpp>
#include <boost/bind.hpp>
#include <sstream>
namespace dynamicgraph { class Entity;
namespace command {
class Command {
 public:
  Entity &o; std::vector<Value> vals; std::string doc;
  virtual ~Command() {}
  Command(Entity &e, const std::vector<Value::Type> &, const std::string &d) : o(e), doc(d) {}
  Entity &owner() { return o; }
  const std::vector<Value> &getParameterValues() const { return vals; }
  void setParameterValues(const std::vector<Value> &v) { vals = v; }
  const std::vector<Value::Type> &valueTypes() const { static std::vector<Value::Type> t; return t; }
  std::string getDocstring() const { return doc; }
  virtual Value execute() { return doExecute(); }
 protected:
  virtual Value doExecute() = 0;
};
class VerifNop : public Command { public: VerifNop(Entity &e, const std::string &d) : Command(e, std::vector<Value::Type>(), d) {} virtual Value doExecute() { return Value(); } };
template <class E, class F> Command *makeCommandVoid0(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandVoid1(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandVoid2(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandVoid3(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandVoid4(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandVoid7(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandVoid8(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandVerbose(E &e, F, const std::string &d) { return new VerifNop(e, d); }
#define VERIF_TYPED(N, SIG, TPL) \
template <class E, TPL> Command *N SIG { return new VerifNop(e, d); }
template <class E> Command *makeCommandVoid0(E &e, void (E::*)(), const std::string &d) { return new VerifNop(e, d); }
template <class E, class A> Command *makeCommandVoid1(E &e, void (E::*)(const A &), const std::string &d) { return new VerifNop(e, d); }
template <class E, class A> Command *makeCommandVoid1(E &e, boost::function<void(const A &)>, const std::string &d) { return new VerifNop(e, d); }
template <class E, class A, class B> Command *makeCommandVoid2(E &e, void (E::*)(const A &, const B &), const std::string &d) { return new VerifNop(e, d); }
template <class E, class A, class B, class C> Command *makeCommandVoid3(E &e, void (E::*)(const A &, const B &, const C &), const std::string &d) { return new VerifNop(e, d); }
template <class E, class A, class B, class C> Command *makeCommandVoid3(E &e, boost::function<void(const A &, const B &, const C &)>, const std::string &d) { return new VerifNop(e, d); }
template <class E, class A, class B, class C, class D> Command *makeCommandVoid4(E &e, void (E::*)(const A &, const B &, const C &, const D &), const std::string &d) { return new VerifNop(e, d); }
template <class R, class E> Command *makeCommandReturnType0(E &e, R (E::*)(), const std::string &d) { return new VerifNop(e, d); }
template <class R, class E> Command *makeCommandReturnType0(E &e, R (E::*)() const, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandReturnType0(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class F> Command *makeCommandReturnType1(E &e, F, const std::string &d) { return new VerifNop(e, d); }
template <class E, class A> Command *makeCommandReturnType1(E &e, std::string (E::*)(const A &), const std::string &d) { return new VerifNop(e, d); }
inline std::string docCommandVoid0(const std::string &d) { return d; }
inline std::string docCommandVoid1(const std::string &d, const std::string &) { return d; }
inline std::string docCommandVoid2(const std::string &d, const std::string &, const std::string &) { return d; }
inline std::string docCommandVoid3(const std::string &d, const std::string &, const std::string &, const std::string &) { return d; }
inline std::string docCommandVoid4(const std::string &d, const std::string &, const std::string &, const std::string &, const std::string &) { return d; }
inline std::string docCommandVerbose(const std::string &d) { return d; }
template <class T> inline std::string docCommandReturnType0(const std::string &d) { return d; }
template <class T> inline std::string docCommandReturnType1(const std::string &d, const std::string &) { return d; }
template <class E, class T> Command *makeDirectGetter(E &e, T *, const std::string &d) { return new VerifNop(e, d); }
template <class E, class T> Command *makeDirectSetter(E &e, T *, const std::string &d) { return new VerifNop(e, d); }
inline std::string docDirectGetter(const std::string &, const std::string &) { return ""; }
inline std::string docDirectSetter(const std::string &, const std::string &) { return ""; }
template <class E, class T> class Setter : public Command { public:
  typedef void (E::*SetterMethod)(const T &);
  Setter(E &e, SetterMethod, const std::string &d) : Command(e, std::vector<Value::Type>(), d) {}
  template <class M> Setter(E &e, M, const std::string &d) : Command(e, std::vector<Value::Type>(), d) {}
 protected: virtual Value doExecute() { return Value(); } };
template <class E, class T> class Getter : public Command { public:
  typedef T (E::*GetterMethod)() const;
  Getter(E &e, GetterMethod, const std::string &d) : Command(e, std::vector<Value::Type>(), d) {}
 protected: virtual Value doExecute() { return Value(); } };
}}
#endif
