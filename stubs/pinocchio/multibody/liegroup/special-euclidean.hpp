#include <pinocchio/multibody/liegroup/liegroup.hpp>
