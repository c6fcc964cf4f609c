#ifndef VERIF_DG_EXC_H
#define VERIF_DG_EXC_H
#include <dynamic-graph/fwd.hh>
#include <exception>
#include <iostream>
#include <cstdio>
#include <cstdarg>
#define DG_THROW throw
#define DG_RETHROW
namespace dynamicgraph {
class ExceptionAbstract : public std::exception {
 public:
  int code; std::string message;
  ExceptionAbstract(const int &c, const std::string &m = "") : code(c), message(m) {}
  virtual ~ExceptionAbstract() throw() {}
  virtual const std::string &getExceptionName() const { return message; }
  int getCode() const { return code; }
  const std::string &getStringMessage() const { return message; }
  const char *getMessage() const { return message.c_str(); }
  const char *what() const throw() { return message.c_str(); }
  friend std::ostream &operator<<(std::ostream &os, const ExceptionAbstract &e) { return os << e.message; }
};
#define VERIF_DG_EXC(NAME) class NAME : public ExceptionAbstract { public: \
  enum ErrorCodeEnum { GENERIC = 0, READWRITE_LOCK, COPY_NOT_INITIALIZED, NOT_INITIALIZED, PLUG_IMPOSSIBLE, SET_IMPOSSIBLE, BAD_CAST, \
   UNREFERED_OBJECT, UNREFERED_SIGNAL, UNREFERED_FUNCTION, DYNAMIC_LOADING, SIGNAL_CONFLICT, FUNCTION_CONFLICT, OBJECT_CONFLICT, SYNTAX_ERROR, READ_FILE, NOT_OPEN, WRITE_FILE, ABSTRACT, SIGNAL, FACTORY, TOOLS, TRACES }; \
  NAME(const ErrorCodeEnum &c, const std::string &m = "") : ExceptionAbstract(c, m) {} \
  NAME(const ErrorCodeEnum &c, const std::string &m, const char *, ...) : ExceptionAbstract(c, m) {} \
  virtual ~NAME() throw() {} };
VERIF_DG_EXC(ExceptionSignal)
VERIF_DG_EXC(ExceptionFactory)
VERIF_DG_EXC(ExceptionTraces)
}
#endif
