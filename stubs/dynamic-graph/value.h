#ifndef VERIF_DG_VALUE_H
#define VERIF_DG_VALUE_H
#include <dynamic-graph/linear-algebra.h>
#include <dynamic-graph/fwd.hh>
#include <vector>
#include <iostream>
#include <boost/any.hpp>
namespace dynamicgraph { namespace command {
class Value;
class EitherType {
 public:
  const Value *v;
  EitherType(const Value &x) : v(&x) {}
  operator bool() const; operator unsigned() const; operator int() const; operator float() const;
  operator double() const; operator std::string() const; operator Vector() const; operator Matrix() const;
  operator Eigen::Matrix4d() const;
  operator std::vector<Value>() const;
  operator unsigned long() const;
};
class Value {
 public:
  enum Type { NONE, BOOL, UNSIGNED, INT, FLOAT, DOUBLE, STRING, VECTOR, MATRIX, MATRIX4D, VALUES, NB_TYPES };
  Type t; boost::any a;
  ~Value() {}
  Value() : t(NONE) {}
  explicit Value(const bool &x) : t(BOOL), a(x) {}
  explicit Value(const unsigned &x) : t(UNSIGNED), a(x) {}
  explicit Value(const unsigned long &x) : t(UNSIGNED), a((unsigned)x) {}
  explicit Value(const int &x) : t(INT), a(x) {}
  explicit Value(const float &x) : t(FLOAT), a(x) {}
  explicit Value(const double &x) : t(DOUBLE), a(x) {}
  explicit Value(const std::string &x) : t(STRING), a(x) {}
  explicit Value(const Vector &x) : t(VECTOR), a(x) {}
  explicit Value(const Matrix &x) : t(MATRIX), a(x) {}
  explicit Value(const std::vector<Value> &x) : t(VALUES), a(x) {}
  Type type() const { return t; }
  EitherType value() const { return EitherType(*this); }
  static std::string typeName(Type) { return ""; }
  template <class X> X as() const { return boost::any_cast<X>(a); }
};
inline EitherType::operator bool() const { return v->as<bool>(); }
inline EitherType::operator unsigned() const { return v->as<unsigned>(); }
inline EitherType::operator unsigned long() const { return v->as<unsigned>(); }
inline EitherType::operator int() const { return v->as<int>(); }
inline EitherType::operator float() const { return v->as<float>(); }
inline EitherType::operator double() const { return v->as<double>(); }
inline EitherType::operator std::string() const { return v->as<std::string>(); }
inline EitherType::operator Vector() const { return v->as<Vector>(); }
inline EitherType::operator Matrix() const { return v->as<Matrix>(); }
inline EitherType::operator Eigen::Matrix4d() const { return Eigen::Matrix4d(v->as<Matrix>()); }
inline EitherType::operator std::vector<Value>() const { return v->as<std::vector<Value> >(); }
inline std::ostream &operator<<(std::ostream &os, const Value &) { return os; }
template <typename T> struct ValueHelper { static const Value::Type TypeID = Value::DOUBLE; };
template <typename T> const Value::Type ValueHelper<T>::TypeID;
}}
#endif
