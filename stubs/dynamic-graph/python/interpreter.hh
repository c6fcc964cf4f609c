#ifndef VERIF_PYI
#define VERIF_PYI
#include <string>
#include <memory>
namespace dynamicgraph { namespace python { class Interpreter { public: void runPythonFile(std::string, std::string &) {} void runPythonFile(std::string) {} void runMain() {} void startRosService(void) {} std::string python(const std::string &) { return ""; } void python(const std::string &, std::string &, std::string &, std::string &) {} }; typedef std::shared_ptr<Interpreter> InterpreterPtr_t; } }
#endif
