#ifndef VERIF_DG_FACTORY_H
#define VERIF_DG_FACTORY_H
#include <dynamic-graph/entity.h>
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(CLASSTYPE, CLASSNAME) const std::string CLASSTYPE::CLASS_NAME = CLASSNAME
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_DEF(CLASSTYPE, CLASSNAME)
namespace dynamicgraph {
class FactoryStorage {
 public:
  typedef Entity *(*EntityConstructor_ptr)(const std::string &);
  static FactoryStorage *getInstance() { static FactoryStorage f; return &f; }
  void registerEntity(const std::string &, EntityConstructor_ptr) {}
  Entity *newEntity(const std::string &, const std::string &) { return 0; }
  bool existEntity(const std::string &) { return false; }
  void deregisterEntity(const std::string &) {}
};
class EntityRegisterer { public: EntityRegisterer(const std::string &, FactoryStorage::EntityConstructor_ptr) {} };
}
#endif
