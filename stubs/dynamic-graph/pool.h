#ifndef VERIF_DG_POOL_H
#define VERIF_DG_POOL_H
#include <dynamic-graph/entity.h>
namespace dynamicgraph {
class PoolStorage {
 public:
  typedef std::map<std::string, Entity *> Entities;
  Entities entityMap;
  static PoolStorage *getInstance() { static PoolStorage p; return &p; }
  static void destroy() {}
  void registerEntity(const std::string &n, Entity *e) { entityMap[n] = e; }
  void deregisterEntity(const std::string &n) { entityMap.erase(n); }
  Entity &getEntity(const std::string &n) { return *entityMap[n]; }
  const Entities &getEntityMap() const { return entityMap; }
  bool existEntity(const std::string &n) { return entityMap.find(n) != entityMap.end(); }
  bool existEntity(const std::string &n, Entity *&e) { Entities::iterator i = entityMap.find(n); if (i == entityMap.end()) return false; e = i->second; return true; }
  std::map<std::string, SignalBase<int> *> knownSignals;  // replay only: what the drivers let a path designate
  SignalBase<int> &getSignal(std::istringstream &is) {
    std::string n;
    is >> n;
    static SignalBase<int> s;
    return knownSignals.count(n) ? *knownSignals[n] : s;
  }
};
}
#endif
