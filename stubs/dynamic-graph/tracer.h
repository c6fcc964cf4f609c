#ifndef VERIF_DG_TRACER_H
#define VERIF_DG_TRACER_H
#include <dynamic-graph/entity.h>
namespace dynamicgraph { class Tracer : public Entity { public: Tracer(const std::string n) : Entity(n) {} }; }
#endif
