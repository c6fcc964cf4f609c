#include <pinocchio/fwd.hpp>
