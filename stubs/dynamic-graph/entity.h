#ifndef VERIF_DG_ENTITY_H
#define VERIF_DG_ENTITY_H
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/command.h>
#include <dynamic-graph/logger.h>
#include <map>
#include <vector>
#include <dynamic-graph/factory.h>
#define DYNAMIC_GRAPH_ENTITY_DECL() public: virtual const std::string &getClassName(void) const { return CLASS_NAME; } static const std::string CLASS_NAME
namespace dynamicgraph {
class Entity {
 public:
  typedef std::map<const std::string, command::Command *> CommandMap_t;
  CommandMap_t commandMap;
  typedef std::map<std::string, SignalBase<int> *> SignalMap;
  explicit Entity(const std::string &n) : name(n) {}
  virtual ~Entity() {}
  const std::string &getName() const { return name; }
  virtual const std::string &getClassName() const { static std::string s("Entity"); return s; }
  virtual std::string getDocString() const { return ""; }
  std::string getCommandList() const { return ""; }
  bool hasSignal(const std::string &) const { return true; }
  SignalBase<int> &getSignal(const std::string &n) { return *signalMap[n]; }
  const SignalBase<int> &getSignal(const std::string &n) const { return *signalMap.find(n)->second; }
  virtual std::ostream &displaySignalList(std::ostream &os) const { return os; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &writeCompletionList(std::ostream &os) const { return os; }
  virtual void display(std::ostream &) const {}
  virtual SignalBase<int> *test() { return 0; }
  virtual void test2(SignalBase<int> *) {}
  std::map<const std::string, command::Command *> getNewStyleCommandMap() { return std::map<const std::string, command::Command *>(); }
  void addCommand(const std::string &, command::Command *c) { delete c; }
  Logger &logger() { return logger_; }
  const Logger &logger() const { return logger_; }
  void setLoggerVerbosityLevel(LoggerVerbosity) {}
  LoggerVerbosity getLoggerVerbosityLevel() { return VERBOSITY_NONE; }
  bool setTimeSample(double) { return true; }
  void sendMsg(const std::string &, MsgType = MSG_TYPE_INFO, const std::string & = "") const {}
  std::string name;
  SignalMap signalMap;
  void signalRegistration(const SignalArray<int> &) {}
  void signalDeregistration(const std::string &) {}
  void entityRegistration() {}
  void entityDeregistration() {}
 protected:
  mutable Logger logger_;
};
}
#define SEND_MSG(msg, type) sendMsg(msg, type, std::string(__FILE__))
#define SEND_WARNING_STREAM_MSG(msg) sendMsg(msg, MSG_TYPE_WARNING_STREAM)
#define SEND_ERROR_STREAM_MSG(msg) sendMsg(msg, MSG_TYPE_ERROR_STREAM)
#define SEND_INFO_STREAM_MSG(msg) sendMsg(msg, MSG_TYPE_INFO_STREAM)
#define DYNAMIC_GRAPH_ENTITY_DEBUG(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_DEBUG)
#define DYNAMIC_GRAPH_ENTITY_INFO(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_INFO)
#define DYNAMIC_GRAPH_ENTITY_WARNING(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_WARNING)
#define DYNAMIC_GRAPH_ENTITY_ERROR(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_ERROR)
#define DYNAMIC_GRAPH_ENTITY_ERROR_STREAM(entity) (entity).logger().stream(::dynamicgraph::MSG_TYPE_ERROR_STREAM)
#endif
