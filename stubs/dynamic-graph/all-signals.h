#ifndef VERIF_DG_SIGNALS_H
#define VERIF_DG_SIGNALS_H
// Interface stub: same names and signatures as dynamic-graph's signal classes, simple executable semantics.
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <dynamic-graph/exception-abstract.h>
#include <dynamic-graph/linear-algebra.h>
#include <functional>
#include <iostream>
#include <dynamic-graph/signal-caster.h>
#include <list>
#include <set>
#include <sstream>
#include <vector>
namespace dynamicgraph {
template <typename Time>
class SignalBase {
 public:
  std::string name;
  Time signalTime;
  bool ready;
  std::set<const SignalBase<Time> *> deps;
  explicit SignalBase(std::string n = "") : name(n), signalTime(0), ready(false) {}
  virtual ~SignalBase() {}
  virtual const Time &getTime() const { return signalTime; }
  virtual void setTime(const Time &t) { signalTime = t; }
  const bool &getReady() const { return ready; }
  const std::string &getName() const { return name; }
  std::string shortName() const { return name; }
  virtual void setReady(const bool sready = true) { ready = sready; }
  virtual void addDependency(const SignalBase<Time> &s) { deps.insert(&s); }
  virtual void removeDependency(const SignalBase<Time> &s) { deps.erase(&s); }
  virtual void clearDependencies() { deps.clear(); }
  virtual bool needUpdate(const Time &t) const { return ready || t != signalTime; }
  virtual void recompute(const Time &) {}
  virtual void plug(SignalBase<Time> *) {}
  virtual void unplug() {}
  virtual bool isPlugged() const { return false; }
  virtual SignalBase<Time> *getPluged() const { return NULL; }
  virtual void setConstantDefault() {}
  virtual void get(std::ostream &) const {}
  virtual void set(std::istringstream &) {}
  virtual void trace(std::ostream &) const {}
  virtual std::ostream &display(std::ostream &os) const { return os << name; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int = -1, std::string = "", std::string = "", std::string = "") const { return os; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual void ExtractNodeAndLocalNames(std::string &l, std::string &n) const {
    std::string fullname = name;
    size_t a = fullname.find('('), b = fullname.find(')');
    n = fullname.substr(a + 1, b - a - 1);
    size_t c = fullname.rfind(':');
    l = fullname.substr(c + 1);
  }
  template <class T> bool checkCompatibility() { return true; }
  template <class T> Signal<T, Time> *cast() { return dynamic_cast<Signal<T, Time> *>(this); }
  friend std::ostream &operator<<(std::ostream &os, const SignalBase<Time> &s) { return s.display(os); }
};
template <typename Time>
class SignalArray_const {
 public:
  mutable std::vector<const SignalBase<Time> *> array;
  SignalArray_const(int = 0) {}
  SignalArray_const(const SignalBase<Time> &s) { array.push_back(&s); }
  SignalArray_const &operator<<(const SignalBase<Time> &s) { array.push_back(&s); return *this; }
  const SignalBase<Time> &operator[](const unsigned int &i) const { return *array[i]; }
  unsigned int getSize() const { return (unsigned int)array.size(); }
};
template <typename Time>
class SignalArray : public SignalArray_const<Time> {
 public:
  mutable std::vector<SignalBase<Time> *> array;
  SignalArray(int = 0) {}
  SignalArray(SignalBase<Time> &s) { array.push_back(&s); }
  const SignalArray &operator<<(SignalBase<Time> &s) const { array.push_back(&s); return *this; }
  const SignalArray &operator<<(const SignalArray<Time> &s) const { for (size_t i = 0; i < s.array.size(); ++i) array.push_back(s.array[i]); return *this; }
  SignalBase<Time> &operator[](const unsigned int &i) const { return *array[i]; }
  unsigned int getSize() const { return (unsigned int)array.size(); }
};
template <typename Time>
SignalArray<Time> operator<<(SignalBase<Time> &a, SignalBase<Time> &b) { SignalArray<Time> r(a); r << b; return r; }
template <typename Time>
SignalArray<Time> operator<<(SignalBase<Time> &a, const SignalArray<Time> &b) { SignalArray<Time> r(a); r << b; return r; }
static SignalArray<int> sotNOSIGNAL(0);

template <typename T, typename Time>
class Signal : public SignalBase<Time> {
 public:
  typedef boost::function2<T &, T &, Time> FunctionType;
  T value;
  FunctionType function;
  bool constant;
  bool keepReference;
  const T *reference;
  T *referenceNonConst;
  Signal(std::string n = "") : SignalBase<Time>(n), value(), constant(false), keepReference(false), reference(NULL), referenceNonConst(NULL) {}
  virtual ~Signal() {}
  void setConstant(const T &t) { value = t; constant = true; reference = NULL; referenceNonConst = NULL; this->setReady(); }
  void setReference(const T *t, void * = NULL) { reference = t; referenceNonConst = NULL; constant = true; }
  void setReferenceNonConstant(T *t, void * = NULL) { reference = t; referenceNonConst = t; constant = true; }
  void setFunction(FunctionType f, void * = NULL) { function = f; constant = false; reference = NULL; referenceNonConst = NULL; }
  bool getKeepReference() { return keepReference; }
  void setKeepReference(const bool &b) { keepReference = b; }
  virtual const T &accessCopy() const { return reference ? *reference : value; }
  virtual const T &access(const Time &t) {
    if (function && !constant) function(value, t);
    this->signalTime = t;
    return reference ? *reference : value;
  }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual void recompute(const Time &t) { access(t); }
  Signal<T, Time> &operator=(const T &t) {
    if (keepReference && referenceNonConst) *referenceNonConst = t;
    else setConstant(t);
    return *this;
  }
  virtual void get(std::ostream &) const {}
};
template <class T, class Time>
class SignalPtr : public Signal<T, Time> {
 public:
  Signal<T, Time> *signalPtr;
  SignalPtr(Signal<T, Time> *ptr, std::string n = "") : Signal<T, Time>(n), signalPtr(ptr) {}
  virtual ~SignalPtr() {}
  virtual void plug(SignalBase<Time> *ref) { signalPtr = dynamic_cast<Signal<T, Time> *>(ref); }
  virtual void unplug() { signalPtr = NULL; }
  virtual bool isPlugged() const { return signalPtr != NULL || this->constant; }
  virtual SignalBase<Time> *getPluged() const { return signalPtr; }
  Signal<T, Time> *getPtr() { return signalPtr; }
  const Signal<T, Time> *getPtr() const { return signalPtr; }
  Signal<T, Time> *getAbstractPtr() { return signalPtr; }
  virtual const T &operator()(const Time &t) { return access(t); }
  virtual const T &access(const Time &t) {
    if (signalPtr && signalPtr != this) return signalPtr->access(t);
    return Signal<T, Time>::access(t);
  }
  virtual const T &accessCopy() const {
    if (signalPtr && signalPtr != this) return signalPtr->accessCopy();
    return Signal<T, Time>::accessCopy();
  }
  SignalPtr<T, Time> &operator=(const T &t) { signalPtr = NULL; this->setConstant(t); return *this; }
};
template <class Time>
class TimeDependency {
 public:
  enum DependencyType { TIME_DEPENDENT, BOOL_DEPENDENT, ALWAYS_READY };
};
template <class T, class Time>
class SignalTimeDependent : public Signal<T, Time>, public TimeDependency<Time> {
 public:
  Time periodTime;
  SignalTimeDependent(std::string n = "") : Signal<T, Time>(n), periodTime(1) {}
  SignalTimeDependent(const SignalArray_const<Time> &, std::string n = "") : Signal<T, Time>(n), periodTime(1) {}
  SignalTimeDependent(const SignalArray<Time> &, std::string n = "") : Signal<T, Time>(n), periodTime(1) {}
  SignalTimeDependent(boost::function2<T &, T &, Time> f, const SignalArray_const<Time> &, std::string n = "") : Signal<T, Time>(n), periodTime(1) { this->setFunction(f); }
  SignalTimeDependent(boost::function2<T &, T &, Time> f, const SignalArray<Time> &, std::string n = "") : Signal<T, Time>(n), periodTime(1) { this->setFunction(f); }
  SignalTimeDependent(boost::function2<T &, T &, Time> f, SignalBase<Time> &, std::string n = "") : Signal<T, Time>(n), periodTime(1) { this->setFunction(f); }
  virtual ~SignalTimeDependent() {}
  void setDependencyType(typename TimeDependency<Time>::DependencyType) {}
  void setNeedUpdateFromAllChildren(const bool) {}
  void addDependencies(const SignalArray<Time> &) {}
  void setPeriodTime(const Time &p) { periodTime = p; }
  Time getPeriodTime() const { return periodTime; }
};
}
#endif
