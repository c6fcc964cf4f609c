#ifndef VERIF_DG_SIGNAL_HELPER_H
#define VERIF_DG_SIGNAL_HELPER_H
#include <dynamic-graph/all-signals.h>
#include <dynamic-graph/entity.h>
#define ADD_COMMAND(name, def) if (commandMap.count(name) != 0) {} addCommand(name, def)
#define CONSTRUCT_SIGNAL_IN(name, type) m_##name##SIN(NULL, getClassName() + "(" + getName() + ")::input(" + #type + ")::" + #name)
#define CONSTRUCT_SIGNAL_OUT(name, type, dep) m_##name##SOUT(boost::bind(&EntityClassName::name##SOUT_function, this, _1, _2), dep, getClassName() + "(" + getName() + ")::output(" + #type + ")::" + #name)
#define CONSTRUCT_SIGNAL_INNER(name, type, dep) m_##name##SINNER(boost::bind(&EntityClassName::name##SINNER_function, this, _1, _2), dep, getClassName() + "(" + getName() + ")::inner(" + #type + ")::" + #name)
#define BIND_SIGNAL_TO_FUNCTION(name, IO, type) m_##name##IO.setFunction(boost::bind(&EntityClassName::name##IO##_function, this, _1, _2));
#define DECLARE_SIGNAL(name, IO, type) public: ::dynamicgraph::Signal<type, int> m_##name##IO; protected: type &name##IO##_function(type &, int)
#define DECLARE_SIGNAL_IN(name, type) public: ::dynamicgraph::SignalPtr<type, int> m_##name##SIN
#define DECLARE_SIGNAL_OUT(name, type) public: ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SOUT; protected: type &name##SOUT_function(type &, int)
#define DECLARE_SIGNAL_OUT_FUNCTION(name, type) protected: type &name##SOUT_function(type &, int)
#define DECLARE_SIGNAL_INNER(name, type) public: ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SINNER; protected: type &name##SINNER_function(type &, int)
#define DEFINE_SIGNAL_OUT_FUNCTION(name, type) type &EntityClassName::name##SOUT_function(type &s, int iter)
#define DEFINE_SIGNAL_INNER_FUNCTION(name, type) type &EntityClassName::name##SINNER_function(type &s, int iter)
#endif
