#ifndef VERIF_DG_EH
#define VERIF_DG_EH
#include <dynamic-graph/entity.h>
namespace dynamicgraph { template <class T> class EntityHelper { public: typedef T EntityClassName; }; }
#endif
