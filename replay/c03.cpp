#include "common.hpp"
#include <sot/core/exception-abstract.hh>
#include <sot/core/exception-dynamic.hh>
#include <sot/core/exception-factory.hh>
#include <sot/core/exception-feature.hh>
#include <sot/core/exception-signal.hh>
#include <sot/core/exception-task.hh>
#include <sot/core/exception-tools.hh>
using namespace dynamicgraph::sot;
static void same(ExceptionAbstract &e, int code, const std::string &msg, const std::string &name, const std::string &in) {
  CHECK(e.getCode() == code, in << ": code " << e.getCode());
  CHECK(e.getStringMessage() == msg, in << ": message '" << e.getStringMessage() << "' expected '" << msg << "'");
  CHECK(std::string(e.getMessage()) == msg, in << ": getMessage '" << e.getMessage() << "' expected '" << msg << "'");
  const std::exception &s = e;
  CHECK(std::string(s.what()) == msg, in << ": what '" << s.what() << "' expected '" << msg << "'");
  std::ostringstream os; os << e;
  CHECK(os.str().find(name) != std::string::npos, in << ": streamed text '" << os.str() << "' without the class name");
  CHECK(os.str().find(std::to_string(code)) != std::string::npos, in << ": streamed text '" << os.str() << "' without the code");
  CHECK(os.str().find(msg) != std::string::npos, in << ": streamed text '" << os.str() << "' without the message");
}
template <class E> static void one(Gen &G, const char *name, std::initializer_list<int> codes, int base) {
  std::vector<int> cs(codes);
  for (size_t i = 0; i < cs.size(); ++i) {
    CHECK(cs[i] >= base && cs[i] < base + 100, name << ": code " << cs[i] << " outside its family");
    for (size_t j = 0; j < i; ++j) CHECK(cs[i] != cs[j], name << ": two conditions share code " << cs[i]);
  }
  typedef typename E::ErrorCodeEnum C;
  int code = cs[G.u(cs.size())];
  std::string msg = G.str(G.b() ? 12 : 400), arg = G.str(60);
  std::string in = std::string(name) + " code " + std::to_string(code) + " message '" + msg + "'";
  G.count(in);
  { E e((C)code, msg); same(e, code, msg, name, in);
    E f(e); same(f, code, msg, name, in + " copied");
    try { throw e; } catch (ExceptionAbstract &x) { same(x, code, msg, name, in + " caught"); } }
  { E e((C)code); same(e, code, "", name, std::string(name) + " without message"); }
  { double d = G.d(); int k = G.i(-1000, 1000);
    char buf[256]; snprintf(buf, 256, " <%s> %d %.3f", arg.c_str(), k, d);
    E e((C)code, msg, " <%s> %d %.3f", arg.c_str(), k, d);
    same(e, code, msg + buf, name, in + " formatted"); }
}
void run(Gen &G) {
  while (G.more()) {
    one<ExceptionTask>(G, "Task", {ExceptionTask::GENERIC, ExceptionTask::EMPTY_LIST, ExceptionTask::NON_ADEQUATE_FEATURES, ExceptionTask::MATRIX_SIZE, ExceptionTask::BOUND_TYPE, ExceptionTask::PARSER_MULTI_BOUND}, 200);
    one<ExceptionFeature>(G, "Feature", {ExceptionFeature::GENERIC, ExceptionFeature::BAD_INIT, ExceptionFeature::UNCOMPATIBLE_SIZE}, 300);
    one<ExceptionDynamic>(G, "Dynamic", {ExceptionDynamic::GENERIC, ExceptionDynamic::CANT_DESTROY_SIGNAL, ExceptionDynamic::JOINT_RANK, ExceptionDynamic::DYNAMIC_JRL, ExceptionDynamic::JOINT_SIZE, ExceptionDynamic::INTEGRATION}, 500);
    one<ExceptionFactory>(G, "Factory", {ExceptionFactory::GENERIC, ExceptionFactory::UNREFERED_OBJECT, ExceptionFactory::UNREFERED_SIGNAL, ExceptionFactory::UNREFERED_FUNCTION, ExceptionFactory::DYNAMIC_LOADING, ExceptionFactory::SIGNAL_CONFLICT, ExceptionFactory::FUNCTION_CONFLICT, ExceptionFactory::OBJECT_CONFLICT, ExceptionFactory::SYNTAX_ERROR, ExceptionFactory::READ_FILE}, 400);
    one<ExceptionSignal>(G, "Signal", {ExceptionSignal::GENERIC, ExceptionSignal::READWRITE_LOCK, ExceptionSignal::COPY_NOT_INITIALIZED, ExceptionSignal::NOT_INITIALIZED, ExceptionSignal::PLUG_IMPOSSIBLE, ExceptionSignal::SET_IMPOSSIBLE, ExceptionSignal::BAD_CAST}, 100);
    one<ExceptionTools>(G, "Tools", {ExceptionTools::GENERIC, ExceptionTools::CORBA, ExceptionTools::KALMAN_SIZE, ExceptionTools::PARAMETER_SERVER}, 700);
  }
}
