#ifndef VERIF_DG_FWD_HH
#define VERIF_DG_FWD_HH
#include <dynamic-graph/config.hh>
#include <memory>
#include <string>
namespace dynamicgraph {
class Entity;
class Logger;
class PoolStorage;
class FactoryStorage;
template <typename Time> class SignalBase;
template <typename T, typename Time> class Signal;
template <typename T, typename Time> class SignalPtr;
template <typename T, typename Time> class SignalTimeDependent;
namespace command {
class Command;
class Value;
}
}
#endif
